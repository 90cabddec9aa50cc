package main

func init() {
	all := gOpts{dtd: true, ents: true, ns: true, attrs: true, decl: true, exotic: true}
	register("C03", docFamily("docs", 1, "random documents (random surface forms) are parsed, serialised, compared with the canonical form of the abstract document, parsed and serialised again", all, aspects{events: "-", canon: true}))
	register("ALL", docFamily("docs", 1, "all aspects", all, aspects{canon: true, tree: true, must: true}))
}
