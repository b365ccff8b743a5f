package genworld

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"regexp"
	"sort"
	"strings"

	"vsim/zsgen"
)

// tok is a token of a schema text.
type tok struct {
	s        string
	beg, end int
}

// lex splits a schema text into tokens, leaving out comments and white space.
func lex(s string) []tok {
	var out []tok
	i := 0
	isw := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				i = len(s)
			} else {
				i += e + 4
			}
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
			out = append(out, tok{s[i:j], i, j})
			i = j
		case isw(c):
			j := i
			for j < len(s) && isw(s[j]) {
				j++
			}
			out = append(out, tok{s[i:j], i, j})
			i = j
		default:
			out = append(out, tok{s[i : i+1], i, i + 1})
			i++
		}
	}
	return out
}

// declaration is one top-level statement of a schema file.
type declaration struct {
	toks     []tok
	beg, end int // from the first token to just behind the closing semicolon
}

// split finds the top-level statements of a complete schema text.
func split(s string) []declaration {
	var out []declaration
	var cur []tok
	depth := 0
	for _, t := range lex(s) {
		cur = append(cur, t)
		switch t.s {
		case "{":
			depth++
		case "}":
			depth--
		case ";":
			if depth == 0 {
				out = append(out, declaration{cur, cur[0].beg, t.end})
				cur = nil
			}
		}
	}
	return out
}

// cutInside reports whether cutting s to its first n bytes leaves the
// beginning of a top-level statement without its end.
func cutInside(s string, n int) bool {
	for _, d := range split(s) {
		if n > d.beg && n < d.end {
			return true
		}
	}
	return false
}

func (d declaration) text() string {
	var sb strings.Builder
	for i, t := range d.toks {
		if i > 0 && isWord(t.s) && isWord(d.toks[i-1].s) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.s)
	}
	return sb.String()
}

func isWord(s string) bool { return regexp.MustCompile(`^\w+$`).MatchString(s) }

// schemaInfo is what the oracles need to know of a schema file.
type schemaInfo struct {
	pkg     string
	imports []string
	types   []string // names of the types the generated code must define
	consts  []string
}

func inspect(s string) schemaInfo {
	var si schemaInfo
	for _, d := range split(s) {
		w := func(i int) string {
			if i < len(d.toks) {
				return d.toks[i].s
			}
			return ""
		}
		switch w(0) {
		case "package":
			t := d.text()
			si.pkg = strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(t, "package")), ";")
		case "import":
			t := strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(d.text(), "import")), ";")
			if i := strings.LastIndex(t, "."); i > 0 {
				si.imports = append(si.imports, t[:i])
			}
		case "struct", "choice", "union":
			if w(2) != "<" {
				si.types = append(si.types, title(w(1)))
			}
		case "enum", "bitmask":
			// the name is the token before the brace
			for i, t := range d.toks {
				if t.s == "{" {
					si.types = append(si.types, title(d.toks[i-1].s))
					break
				}
			}
		case "subtype":
			si.types = append(si.types, title(d.toks[len(d.toks)-2].s))
		case "instantiate":
			si.types = append(si.types, title(d.toks[len(d.toks)-2].s))
		case "const":
			for i, t := range d.toks {
				if t.s == "=" {
					si.consts = append(si.consts, title(d.toks[i-1].s))
					break
				}
			}
		}
	}
	return si
}

func title(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// packageImported reports whether a remaining file imports the package of f
// and no remaining file declares it.
func packageImported(files []zsgen.File, gone map[string]bool) bool {
	have := map[string]bool{}
	for _, f := range files {
		if !gone[f.Path] {
			have[inspect(f.Text()).pkg] = true
		}
	}
	for _, f := range files {
		if gone[f.Path] {
			continue
		}
		for _, i := range inspect(f.Text()).imports {
			if !have[i] {
				return true
			}
		}
	}
	return false
}

// goDecls is what the Go files of one directory define and use.
type goDecls struct {
	defs map[string]int
	uses map[string]bool // "Name" or "import/path.Name"
	bad  string
}

func goScan(files map[string]string) map[string]*goDecls {
	out := map[string]*goDecls{}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		dir := path.Dir(n)
		g := out[dir]
		if g == nil {
			g = &goDecls{defs: map[string]int{}, uses: map[string]bool{}}
			out[dir] = g
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, files[n], 0)
		if err != nil {
			g.bad = n + ": " + err.Error()
			continue
		}
		imp := map[string]string{}
		for _, is := range f.Imports {
			p := strings.Trim(is.Path.Value, `"`)
			nm := path.Base(p)
			if is.Name != nil {
				nm = is.Name.Name
			}
			if q, dup := imp[nm]; dup && q != p {
				p = "" // two imports of one name: nobody can tell which is meant
			}
			imp[nm] = p
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						g.defs[s.Name.Name]++
					case *ast.ValueSpec:
						for _, i := range s.Names {
							if i.Name != "_" {
								g.defs[i.Name]++
							}
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name != "init" {
					g.defs[d.Name.Name]++
				}
			}
		}
		for _, u := range f.Unresolved {
			if p, ok := imp[u.Name]; ok {
				_ = p
				continue
			}
			g.uses[u.Name] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
					if p, ok := imp[x.Name]; ok {
						g.uses[p+"."+s.Sel.Name] = true
					}
				}
			}
			return true
		})
	}
	return out
}

// declared tells whether a Go name comes from a type of the schema: it is the
// name of a declared type or an instance of a template.
func declared(files []zsgen.File) func(name string) bool {
	names, templ := map[string]bool{}, []string{}
	for _, f := range files {
		for _, d := range split(f.Text()) {
			switch d.toks[0].s {
			case "struct", "choice", "union":
				names[title(d.toks[1].s)] = true
				if len(d.toks) > 2 && d.toks[2].s == "<" {
					templ = append(templ, title(d.toks[1].s))
				}
			}
		}
		for _, t := range inspect(f.Text()).types {
			names[t] = true
		}
	}
	return func(n string) bool {
		if names[n] {
			return true
		}
		for _, t := range templ {
			if strings.HasPrefix(n, t) {
				return true
			}
		}
		return false
	}
}

// bareTemplates finds the names of templates that some file uses without
// template arguments. Such a schema is not valid, and what the generator makes
// of that name is not judged.
func bareTemplates(files []zsgen.File) map[string]bool {
	templ := map[string]bool{}
	for _, f := range files {
		for _, d := range split(f.Text()) {
			switch d.toks[0].s {
			case "struct", "choice", "union":
				if len(d.toks) > 2 && d.toks[2].s == "<" {
					templ[d.toks[1].s] = true
				}
			}
		}
	}
	out := map[string]bool{}
	for _, f := range files {
		toks := lex(f.Text())
		for i, t := range toks {
			if templ[t.s] && (i+1 >= len(toks) || toks[i+1].s != "<") {
				out[title(t.s)] = true
			}
		}
	}
	return out
}
