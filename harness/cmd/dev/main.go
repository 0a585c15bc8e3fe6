// Command dev generates documents and reports what the tool and the compiler
// say: a help for developing the generator of documents.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"

	"verif/internal/engine"
	"verif/spec"
)

func main() {
	from := flag.Uint64("from", 1, "")
	n := flag.Int("n", 50, "")
	v := flag.Int("v", 0, "")
	over := flag.String("c", "", "JSON over the configuration")
	scatter := flag.Int("s", 0, "")
	show := flag.Bool("show", false, "")
	flag.Parse()
	c := spec.Rich()
	if *over != "" {
		if err := json.Unmarshal([]byte(*over), &c); err != nil {
			panic(err)
		}
	}
	c.V = *v
	var docs []*spec.Doc
	for i := 0; i < *n; i++ {
		d := spec.Generate(*from+uint64(i), c)
		d.Scatter(*from+uint64(i), *scatter)
		docs = append(docs, d)
	}
	if *show {
		for _, d := range docs {
			fmt.Println(d.Text())
			fmt.Println(engine.Args(d.Opt), d.Opt.Parts)
		}
		return
	}
	e, err := engine.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	items, err := e.Generate(docs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	bad := 0
	for i, it := range items {
		if it.OK() {
			continue
		}
		bad++
		m := it.CLIErr + it.BuildErr
		l := strings.Split(m, "\n")
		if len(l) > 4 {
			l = l[:4]
		}
		fmt.Printf("seed %d v%d %s %s: %s\n", *from+uint64(i), it.Doc.V, it.ID, it.Stage, strings.Join(l, "\n     "))
	}
	fmt.Printf("%d of %d bad\n", bad, len(items))
}
