package main

import (
	"encoding/json"
	"os"
	"path/filepath"
)

// manifest writes MANIFEST.json from the registered properties.
func manifest() {
	type ch struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Thorough  string `json:"thorough_cmd"`
		Evidence  string `json:"evidence_file"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	var checks []ch
	for _, id := range ids() {
		p := props[id]
		checks = append(checks, ch{id, "bash run.sh check " + id + " quick", "bash run.sh check " + id + " thorough", "evidence/" + id + ".json", p.Technique, p.Level, p.Note})
	}
	na := []map[string]string{}
	data, err := os.ReadFile(filepath.Join(root, "properties.jsonl"))
	if err != nil {
		fatal(err.Error())
	}
	dec := json.NewDecoder(bytesReader(data))
	for dec.More() {
		var l struct {
			ID string `json:"id"`
		}
		if err := dec.Decode(&l); err != nil {
			fatal(err.Error())
		}
		if props[l.ID] == nil {
			na = append(na, map[string]string{"property": l.ID, "reason": "the check is not built yet"})
		}
	}
	m := map[string]interface{}{
		"version":        1,
		"setup_cmd":      "bash run.sh list",
		"checks":         checks,
		"not_applicable": na,
		"notes":          "Every check builds /verif/harness against /repo's working tree (go build, module replace) and runs generated cases. No hooks in /repo. Known findings: known_findings.txt. The tier is the second argument of check; VERIF_SEED selects the seed.",
	}
	out, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(filepath.Join(root, "MANIFEST.json"), append(out, '\n'), 0644); err != nil {
		fatal(err.Error())
	}
}
