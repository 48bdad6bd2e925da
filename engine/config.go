package main

import "path/filepath"

var props = map[string]propCfg{
	"C01": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C02": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C03": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C04": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C05": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C06": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C07": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C08": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C09": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}},
	"C10": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C11": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C12": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C13": {Program: "h", Steps: true, Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{2, 3}},
	"C14": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C15": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C16": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C18": {Program: "h", Level: "model_checking", Budget: [2]int{300, 800}, Preempts: [2]int{0, 0}},
	"C17": {Program: "h", Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{0, 0}},
	"C23": {Program: "h", Steps: true, Level: "model_checking", Budget: [2]int{240, 800}, Preempts: [2]int{1, 2}},
	"C19": {Program: "gen", Level: "model_checking", Budget: [2]int{240, 800}},
	"C21": {Program: "gen", Level: "model_checking", Budget: [2]int{300, 800}},
	"C22": {Program: "gen", Level: "model_checking", Budget: [2]int{120, 600}},
	"C20": {Program: "gen", Level: "model_checking", Budget: [2]int{300, 800}},
}

func (c *ctx) buildOverlay() error {
	hd := filepath.Join(c.verif, "harness")
	if err := overlayDir(c.overlay, filepath.Join(hd, "sym"), filepath.Join(c.repo, "zz_verif/sym")); err != nil {
		return err
	}
	if c.cfg.Program == "h" {
		if c.cfg.Steps {
			if err := c.instrument("rfc1057", false); err != nil {
				return err
			}
			if err := c.instrument("xdr", true); err != nil {
				return err
			}
			if c.prop == "C23" {
				if err := c.instrument("rfc1813", false); err != nil {
					return err
				}
			}
		}
		if err := c.rfcHarnesses(); err != nil {
			return err
		}
		switch c.prop {
		case "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C18", "C23":
			if err := c.corpusHarnesses(); err != nil {
				return err
			}
		}
		return overlayDir(c.overlay, filepath.Join(hd, "h"), filepath.Join(c.repo, "zz_verif/h"))
	}
	return c.genOverlay()
}
