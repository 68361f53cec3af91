package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/go-latex/latex/internal/tex2unicode"
	"github.com/go-latex/latex/vsim"
)

// symbolNames is a sorted sample space of symbol macros; it is taken from the
// code under test once, before anything is simulated.
var symbolNames = func() []string {
	all := tex2unicode.Symbols()
	out := make([]string, 0, len(all))
	for _, s := range all {
		ok := s != ""
		for _, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				ok = false
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}()

var (
	greek  = strings.Fields(`\alpha \beta \gamma \delta \theta \lambda \mu \pi \sigma \phi \omega \Gamma \Delta \Theta \Phi \Omega \nabla \hbar \partial \infty`)
	relops = strings.Fields(`= < > \leq \geq \neq \approx \equiv \sim \rightarrow \leftarrow \in \subset`)
	binops = strings.Fields(`+ - * \times \cdot \pm \div \cup \cap \oplus`)
	bigops = strings.Fields(`\sum \prod \int \oint \bigcup \coprod`)
	funcs  = strings.Fields(`\cos \sin \tan \log \ln \max \min \lim \det \gcd \arccos \arcsin \arctan \sup \sec \deg \arg \sinh \ker \liminf \coth \lg \Pr \tanh \inf \dim \hom \limsup \cosh \cot \csc`)
	spaces = []string{`\,`, `\;`, `\:`, `\!`, `\quad `, `\qquad `, `\ `, `\quad{}`, `\, `}
	oneArg = strings.Fields(`\mathbf \mathit \mathsf \mathtt \mathcal \mathdefault \mathbb \mathfrak \mathscr \mathregular \textbf \textit \textsf \texttt \textcal \textdefault \textbb \textfrak \textscr \textregular \operatorname \exp \overline \hspace`)
	puncts = strings.Fields(`! ? ' : ; , . / * < > = [ ]`)
	words  = strings.Fields(`hello world math a xy abc is TeV fi AV To é Straße Ωμέγα ﬁn A V`)
)

// math writes a well-formed math fragment.
func (r *Rng) math(b *strings.Builder, depth, n int, sups bool) {
	for i := 0; i < n; i++ {
		k := r.n(100)
		switch {
		case k < 22:
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.n(52)])
		case k < 34:
			if r.pct(15) {
				b.WriteString(pickOf(r, "3.14", "0.5", ".5", "1e3", "2.", "007", "0x1F"))
				break
			}
			fmt.Fprintf(b, "%d", r.n(pickOf(r, 10, 10, 1000)))
		case k < 44:
			b.WriteString(pickOf(r, greek...) + " ")
		case k < 52:
			b.WriteString(pickOf(r, "", " ") + pickOf(r, binops...) + " ")
		case k < 58:
			b.WriteString(pickOf(r, relops...) + " ")
		case k < 62:
			b.WriteString(pickOf(r, funcs...) + " ")
		case k < 66:
			b.WriteString(pickOf(r, bigops...) + " ")
		case k < 69:
			b.WriteString(pickOf(r, spaces...))
		case k < 71:
			fmt.Fprintf(b, `\hspace{%d}`, r.n(pickOf(r, 4, 4, 4, 30)))
		case k < 74:
			b.WriteByte('(')
			r.math(b, depth-1, r.in(1, 2), sups)
			b.WriteByte(')')
		case k < 78:
			b.WriteString(`\` + pickOf(r, symbolNames...) + " ")
		case depth <= 0:
			b.WriteByte("xyz"[r.n(3)])
		case sups && r.pct(20):
			switch r.n(5) {
			case 0:
				b.WriteString(pickOf(r, puncts...))
			case 1:
				b.WriteByte('{')
				r.math(b, depth-1, r.in(0, 2), sups)
				b.WriteByte('}')
			case 2:
				b.WriteString(`\stackrel{`)
				r.math(b, depth-1, r.in(0, 2), sups)
				b.WriteString(`}{`)
				r.math(b, depth-1, r.in(0, 2), sups)
				b.WriteByte('}')
			case 3:
				b.WriteString("% c\n")
			case 4:
				b.WriteString(pickOf(r, oneArg...) + "{")
				r.math(b, depth-1, r.in(0, 2), sups)
				b.WriteByte('}')
			}
		case k < 86:
			b.WriteString(pickOf(r, `\frac`, `\dfrac`, `\tfrac`, `\binom`))
			b.WriteByte('{')
			r.math(b, depth-1, r.in(1, 3), sups)
			b.WriteString(`}{`)
			r.math(b, depth-1, r.in(1, 3), sups)
			b.WriteByte('}')
		case k < 92:
			b.WriteString(`\sqrt`)
			if r.pct(35) {
				b.WriteByte('[')
				if r.pct(15) {
					r.math(b, depth-1, 1, sups)
				} else {
					b.WriteString(pickOf(r, "3", "n", "4", "2", "10", "n+1", ""))
				}
				b.WriteByte(']')
			}
			b.WriteByte('{')
			r.math(b, depth-1, r.in(1, 3), sups)
			b.WriteByte('}')
		case k < 95:
			b.WriteString(`\overline{`)
			r.math(b, depth-1, r.in(1, 3), sups)
			b.WriteByte('}')
		case sups && k < 98:
			b.WriteString(pickOf(r, `^`, `_`))
			if r.pct(50) {
				b.WriteByte('{')
				r.math(b, depth-1, r.in(1, 2), sups)
				b.WriteByte('}')
			} else {
				b.WriteByte("xyz123"[r.n(6)])
			}
		case sups:
			b.WriteString(pickOf(r, oneArg...) + "{")
			r.math(b, depth-1, 1, false)
			b.WriteByte('}')
		default:
			b.WriteByte('.')
		}
	}
}

// expr writes a whole expression that can be typeset.
func (r *Rng) expr(size int, sups bool) string {
	b := new(strings.Builder)
	if size >= 3 {
		switch k := r.n(1000); {
		case k < 20: // a whole line of it
			size *= r.in(4, 12)
		case k < 26:
			return r.deep(r.in(5, 30), sups)
		}
	}
	if r.pct(30) {
		b.WriteString(pickOf(r, words...))
		if r.pct(60) {
			b.WriteByte(' ')
		}
	}
	for n := 1 + r.n(2); n > 0; n-- {
		b.WriteByte('$')
		r.math(b, r.in(1, 3), r.in(1, size), sups)
		b.WriteByte('$')
		if r.pct(30) {
			b.WriteString(" " + pickOf(r, words...))
			if r.pct(30) {
				b.WriteString(pickOf(r, "-", ".", " 12", ",", " - ", "!", "?", " = ", "(x)", "\n", "\t", "\r\n", ".5", `\ `))
			}
		}
	}
	if r.pct(6) {
		b.WriteString("% a comment\n")
		if r.pct(50) {
			b.WriteString(pickOf(r, words...))
		}
	}
	return b.String()
}

// bad writes an expression that is probably rejected: a valid one, damaged.
func (r *Rng) bad(size int) string {
	x := r.expr(size, r.pct(30))
	for k := r.in(1, 2); k > 0; k-- {
		switch r.n(7) {
		case 0, 1: // truncated
			if len(x) > 1 {
				x = x[:r.in(1, len(x)-1)]
			}
		case 2: // a byte lost
			if len(x) > 1 {
				i := r.n(len(x))
				x = x[:i] + x[i+1:]
			}
		case 3: // a byte flipped
			if len(x) > 0 {
				i := r.n(len(x))
				x = x[:i] + string([]byte{x[i] ^ byte(1<<uint(r.n(7)))}) + x[i+1:]
			}
		case 4: // junk inserted
			i := r.n(len(x) + 1)
			x = x[:i] + pickOf(r, "{", "}", "$", `\`, "%", "[", "]", "^", "_", `"`, "'", "é", "&", "~", "\x00", "\xff", "#", `\frac`, `\sqrt`, `\sqrt[`) + x[i:]
		case 5: // unknown macro
			i := r.n(len(x) + 1)
			x = x[:i] + fmt.Sprintf(`\nosuch%c%c `, 'a'+rune(r.n(26)), 'a'+rune(r.n(26))) + x[i:]
		case 6: // a part duplicated
			if len(x) > 2 {
				i := r.n(len(x) - 1)
				j := r.in(i+1, len(x))
				x = x[:j] + x[i:j] + x[j:]
			}
		}
	}
	return x
}

// nests are the constructs that contain others.
var nests = []string{`\sqrt{@}`, `\sqrt[3]{@}`, `\sqrt[@]{x}`, `\overline{@}`, `\frac{@}{b}`, `\frac{a}{@}`, `\dfrac{@}{2}`, `\tfrac{1}{@}`, `\binom{@}{k}`, `\binom{n}{@}`, `{@}`, `(@)`,
	`x^{@}`, `x_{@}`, `\mathbf{@}`, `\textit{@}`, `\operatorname{@}`, `\exp{@}`, `\stackrel{@}{y}`, `\hspace{@}`}

// deep writes an expression that nests one or two constructs many times.
func (r *Rng) deep(depth int, sups bool) string {
	ok := nests[:10]
	if sups {
		ok = nests
	}
	a, b := pickOf(r, ok...), pickOf(r, ok...)
	if r.pct(40) {
		b = a
	}
	x := pickOf(r, "x", "a+b", `\alpha `, "1", "")
	for i := 0; i < depth; i++ {
		y := a
		if i%2 == 1 {
			y = b
		}
		x = strings.Replace(y, "@", x, 1)
	}
	if r.pct(90) {
		x = "$" + x + "$"
	}
	return x
}

// edge is how many levels of groups are accepted, at most.
func edge() int {
	if edgeAt == 0 {
		lo, hi := 1, 20000
		for lo < hi {
			mid := (lo + hi + 1) / 2
			o := soloRaw(nil, nested(mid), vsim.Config{Clock: baseClock})
			if o.Kind == "ok" {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		edgeAt = lo
	}
	return edgeAt
}

var edgeAt int

// nested is an expression with n levels of groups.
func nested(n int) Op {
	return Op{K: "deep", X: "{", N: n, A: []string{"$", "}", "$"}}
}

// tree writes an expression to be parsed, sometimes a deep or a wide one.
func (r *Rng) tree(size int) string {
	switch k := r.n(100); {
	case k < 3:
		return r.deep(r.in(10, pickOf(r, 40, 150, 400)), true)
	case k < 4:
		return "$" + strings.Repeat(pickOf(r, "x", "x+", "{a}", `\alpha `, "x_1"), r.in(30, 400)) + "$"
	}
	return r.expr(size, true)
}

// any mixes typesettable, parse-only and damaged expressions.
func (r *Rng) any(size int) string {
	if size >= 3 && r.pct(1) {
		return r.deep(r.in(5, 30), r.pct(30))
	}
	switch k := r.n(10); {
	case k < 6:
		return r.expr(size, false)
	case k < 8:
		return r.expr(size, true)
	default:
		return r.bad(size)
	}
}
