// Package report holds what all checks share: results, evidence files, replay
// files and known findings.
package report

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Finding is a violation with everything needed to replay it.
type Finding struct {
	Property string          `json:"property"`
	Rule     string          `json:"rule"`
	Detail   string          `json:"detail"`
	Key      string          `json:"key"` // what identifies it among known findings
	Seed     uint64          `json:"seed"`
	World    string          `json:"world"`
	Scenario json.RawMessage `json:"scenario"`
}

// Result is the outcome of one check.
type Result struct {
	Evaluations int
	Nontrivial  int
	Rule        string
	Samples     []any
	Extra       map[string]any
	Assumptions []string
	Findings    []Finding
	Known       []string
}

// Known is one entry of the committed list of known findings.
type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // "known" or "fixed"
	Rule     string `json:"rule,omitempty"`
	Key      string `json:"key,omitempty"` // exact key of the finding
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

// LoadKnown reads the list.
func LoadKnown(file string) ([]Known, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("%s: %w: %s", file, err, l)
		}
		out = append(out, k)
	}
	return out, nil
}

// Match finds the known finding f is an instance of.
func Match(ks []Known, f *Finding) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == f.Property && k.Rule == f.Rule && k.Key == f.Key && k.Key != "" {
			return k
		}
	}
	return nil
}

// Save writes a replay file and returns its path.
func Save(dir string, f *Finding) (string, error) {
	b, err := json.MarshalIndent(f, "", " ")
	if err != nil {
		return "", err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	h := sha256.Sum256(b)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", f.Property, f.Rule, hex.EncodeToString(h[:4])))
	return p, os.WriteFile(p, b, 0o644)
}

// Evidence writes the evidence file of a check.
func Evidence(file, prop, tier, level string, seed uint64, res *Result, violations []string, start time.Time) error {
	cov := map[string]any{}
	for k, v := range res.Extra {
		cov[k] = v
	}
	cov["evaluations"] = res.Evaluations
	cov["distinct_nontrivial"] = res.Nontrivial
	cov["rule"] = res.Rule
	samples := res.Samples
	if len(samples) == 0 {
		samples = []any{}
	}
	cov["samples"] = samples
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "assumptions": res.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(violations),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}
