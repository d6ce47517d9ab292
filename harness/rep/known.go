package rep

import (
	"crypto/sha256"
	"os"
	"regexp"
	"sort"
	"strings"
)

// Known cases are the inputs and histories, with what goes wrong, of the defects that are listed in
// known_findings.txt and not repaired: six bytes of a hash for each, sorted. A case that fails in the same way is
// counted and not reported; any other failing case is a violation. VERIF_LEARN names a file to which all failing
// cases are written (tools/learn.py); a check never does that.
type known struct {
	cases map[[6]byte]bool
	learn string
	fresh map[[6]byte]bool
}

func loadKnown() (k known) {
	k.cases, k.fresh, k.learn = map[[6]byte]bool{}, map[[6]byte]bool{}, os.Getenv("VERIF_LEARN")
	if f := os.Getenv("VERIF_KNOWN"); f != "" {
		b, _ := os.ReadFile(f)
		for ; len(b) >= 6; b = b[6:] {
			k.cases[[6]byte(b[:6])] = true
		}
	}
	return
}

// volatile parts of messages: UUIDs, object identifiers, times, addresses
var volatileParts = regexp.MustCompile(`[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}|\b[0-9a-f]{24,25}\b|\b\d{4}-\d\d-\d\d \d\d:\d\d:[0-9.]+ \+0000 UTC( m=\+[0-9.]+)?|0x[0-9a-f]+`)

func caseHash(c Case, space string) (h [6]byte) {
	var ms []string
	for _, m := range c.Msgs {
		ms = append(ms, volatileParts.ReplaceAllString(m, "*"))
	}
	sort.Strings(ms)
	text := c.Sig + "\x00" + space + "\x00" + c.Input + "\x00" + strings.Join(ms, "\x00")
	if c.Known != "" {
		text = c.Sig + "\x00" + space + "\x00" + c.Known
	}
	s := sha256.Sum256([]byte(text))
	copy(h[:], s[:])
	return
}

// isKnown reports whether a failing case is a known one (r.mu held).
func (r *R) isKnown(c Case, space string) bool {
	sig, h := c.Sig, caseHash(c, space)
	if r.known.learn != "" {
		r.known.fresh[h] = true
	} else if !r.known.cases[h] {
		return false
	}
	if r.KnownSeen == nil {
		r.KnownSeen = map[string]int{}
	}
	r.KnownSeen[sig]++
	return true
}

func (k known) save() error {
	if k.learn == "" {
		return nil
	}
	var s []string
	for h := range k.fresh {
		s = append(s, string(h[:]))
	}
	sort.Strings(s)
	return os.WriteFile(k.learn, []byte(strings.Join(s, "")), 0644)
}
