package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/lxdlam/vertex/pkg/common"

	"verif/vk"
)

func init() {
	checks["C28"] = check{"exploration",
		"configuration files with every subset of the options in random order and notation (quoting styles, escapes, number notations, comments, spacing, line ends, unknown options and tables) are written to a scratch directory and parsed over the defaults; " +
			"every field must hold the value written or its default. Missing files, directories, broken syntax, repeated options and values of the wrong type must give an error. A case is one file; non-trivial if it names an option; distinct by its text.",
		c28}
}

func c28(r *vk.Run) {
	dir := r.Scratch()
	r.Assume("integers are within the 64-bit range, text is UTF-8, as TOML requires")
	cases(r, 8, r.N(100000, 5000000), func(k int, w *note) {
		c28Case(r, r.Rng("case", k), w, filepath.Join(dir, fmt.Sprintf("c%d.toml", k)))
	})
}

func tomlString(rng *rand.Rand) (string, string) {
	runes := []rune("abcXYZ019 ./-_:#=[]{},'é世\U0001F600")
	var v []rune
	n := rng.Intn(12)
	if rng.Intn(5000) == 0 {
		n = rng.Intn(1 << (8 + rng.Intn(10)))
	}
	for ; n > 0; n-- {
		v = append(v, runes[rng.Intn(len(runes))])
	}
	s := string(v)
	if rng.Intn(3) == 0 && !strings.ContainsAny(s, "'") {
		return s, "'" + s + "'"
	}
	if rng.Intn(3) == 0 {
		s += string([]rune("\"\\\n\t\b\f\r")[rng.Intn(7)])
	}
	q := "\""
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			q += "\\" + string(c)
		case c == '\n':
			q += "\\n"
		case c == '\t':
			q += "\\t"
		case c == '\b':
			q += "\\b"
		case c == '\f':
			q += "\\f"
		case c == '\r':
			q += "\\r"
		case c == 'é' && rng.Intn(2) == 0:
			q += "\\u00e9"
		default:
			q += string(c)
		}
	}
	return s, q + "\""
}

func tomlInt(rng *rand.Rand) (int, string) {
	n := rng.Intn(70000)
	switch rng.Intn(8) {
	case 0:
		n = []int{0, math.MaxInt64, math.MinInt64, -1, 65535}[rng.Intn(5)]
	case 1:
		n = -n
	case 2:
		return n, fmt.Sprintf("+%d", n)
	case 3:
		return n, fmt.Sprintf("0x%x", n)
	case 4:
		if n >= 1000 {
			return n, fmt.Sprintf("%d_%03d", n/1000, n%1000)
		}
	}
	return n, fmt.Sprint(n)
}

// over sets what is expected of an option that is not in the file.
func over[T any](named bool, want *T, preset T) {
	if !named {
		*want = preset
	}
}

func c28Case(r *vk.Run, rng *rand.Rand, w *note, path string) {
	want := common.Config{LogPath: "./log/vertex.log", LogLevel: "INFO", Port: 8081}
	var lines []string
	strOption := func(name string, field *string) {
		v, text := tomlString(rng)
		*field = v
		lines = append(lines, name+"="+text)
	}
	intOption := func(name string, field *int) {
		v, text := tomlInt(rng)
		*field = v
		lines = append(lines, name+"="+text)
	}
	set := 0
	option := func(do func()) {
		if rng.Intn(2) == 0 {
			do()
			set++
		}
	}
	option(func() { strOption("log_path", &want.LogPath) })
	option(func() { strOption("log_level", &want.LogLevel) })
	option(func() { intOption("port", &want.Port) })
	option(func() { strOption("database_file", &want.DatabaseFile) })
	option(func() {
		want.EnableReplica = rng.Intn(2) == 0
		lines = append(lines, fmt.Sprintf("enable_replica=%v", want.EnableReplica))
	})
	option(func() { intOption("replica_port", &want.ReplicaPort) })
	option(func() { strOption("master_address", &want.MasterAddress) })
	named := map[string]bool{}
	for _, l := range lines {
		named[strings.SplitN(l, "=", 2)[0]] = true
	}
	rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	bad := ""
	if rng.Intn(4) == 0 {
		types := map[string]string{"log_path": "s", "log_level": "s", "port": "i", "database_file": "s", "enable_replica": "b", "replica_port": "i", "master_address": "s"}
		names := []string{"log_path", "log_level", "port", "database_file", "enable_replica", "replica_port", "master_address"}
		name := names[rng.Intn(len(names))]
		var rest []string
		for _, l := range lines {
			if !strings.HasPrefix(l, name+"=") {
				rest = append(rest, l)
			}
		}
		switch rng.Intn(8) {
		case 0:
			bad = "missing"
		case 1:
			bad = "directory"
		case 2:
			bad = "syntax"
			junk := []string{"port", "port=", "=3", "log_path=\"abc", "[table", "port=8 0", "log_path='abc", "enable_replica=maybe", "port=0xzz", "log_path=\"\\q\"", "port==1"}[rng.Intn(11)]
			if name := strings.SplitN(junk, "=", 2)[0]; name != "" {
				var keep []string
				for _, l := range lines {
					if !strings.HasPrefix(l, name+"=") {
						keep = append(keep, l)
					}
				}
				lines = keep
			}
			lines = append(lines, junk)
		case 3:
			bad = "repeated"
			lines = append(rest, name+"="+map[string]string{"s": "\"a\"", "i": "1", "b": "true"}[types[name]], name+"="+map[string]string{"s": "\"b\"", "i": "2", "b": "false"}[types[name]])
		default:
			bad = "type"
			var v string
			switch types[name] {
			case "s":
				v = []string{"5", "true", "1.5", "[\"a\"]", "{a=1}"}[rng.Intn(5)]
			case "i":
				v = []string{"\"80\"", "true", "[1]", "\"\"", "{a=1}"}[rng.Intn(5)]
			case "b":
				v = []string{"\"true\"", "1", "0", "[true]", "1.5"}[rng.Intn(5)]
			}
			lines = append(rest, name+"="+v)
		}
		if bad == "type" || bad == "repeated" {
			rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		}
	}
	var text string
	eol := []string{"\n", "\r\n"}[rng.Intn(2)]
	for _, l := range lines {
		if rng.Intn(6) == 0 {
			text += "# port=1" + eol
			if rng.Intn(1500) == 0 {
				text += strings.Repeat("# port=1"+strings.Repeat("-", rng.Intn(3)*50)+eol, rng.Intn(3000))
			}
		}
		if rng.Intn(8) == 0 {
			text += eol
		}
		if rng.Intn(8) == 0 {
			text += fmt.Sprintf("unknown%d = 3%s", rng.Intn(1<<40), eol)
		}
		if i := strings.Index(l, "="); i > 0 && rng.Intn(2) == 0 && bad != "syntax" {
			l = strings.Repeat(" ", rng.Intn(2)) + l[:i] + " = " + l[i+1:]
			if rng.Intn(3) == 0 {
				l += " # port = 2"
			}
		}
		text += l + eol
	}
	if rng.Intn(8) == 0 && bad != "syntax" {
		text += "[other]" + eol + "port = 9" + eol + "log_path = \"x\"" + eol
	}
	if strings.HasSuffix(text, eol) && rng.Intn(4) == 0 && bad != "syntax" {
		text = text[:len(text)-len(eol)]
	}
	w.set(text)
	file := path
	switch bad {
	case "missing":
	case "directory":
		file = filepath.Dir(path)
	default:
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			r.Infra("%v", err)
		}
		defer os.Remove(path)
	}
	c := common.NewConfig()
	if d := (common.Config{LogPath: "./log/vertex.log", LogLevel: "INFO", Port: 8081}); *c != d {
		r.Violate(map[string]any{"config": fmt.Sprintf("%+v", *c)}, "the defaults are %+v instead of the documented %+v", *c, d)
	}
	if rng.Intn(3) == 0 { // over what has been set before
		preset := common.Config{LogPath: "p", LogLevel: "WARN", Port: 1 + rng.Intn(9), DatabaseFile: "d", EnableReplica: true, ReplicaPort: 1 + rng.Intn(9), MasterAddress: "m"}
		*c = preset
		over(named["log_path"], &want.LogPath, preset.LogPath)
		over(named["log_level"], &want.LogLevel, preset.LogLevel)
		over(named["port"], &want.Port, preset.Port)
		over(named["database_file"], &want.DatabaseFile, preset.DatabaseFile)
		over(named["enable_replica"], &want.EnableReplica, preset.EnableReplica)
		over(named["replica_port"], &want.ReplicaPort, preset.ReplicaPort)
		over(named["master_address"], &want.MasterAddress, preset.MasterAddress)
	}
	err := c.Parse(file)
	replay := map[string]any{"file": vk.Q(text), "kind": bad, "got": fmt.Sprintf("%+v", *c), "want": fmt.Sprintf("%+v", want)}
	if bad != "" {
		if err == nil {
			r.Violate(replay, "no error for a configuration file with this defect: %s, %s", bad, vk.Q(text))
		}
		r.Count("errors_"+bad, 1)
	} else {
		if err != nil {
			r.Violate(replay, "parsing %s fails: %v", vk.Q(text), err)
		}
		if *c != want {
			r.Violate(replay, "parsing %s gives %+v instead of %+v", vk.Q(text), *c, want)
		}
		r.Count("options_set", int64(set))
		r.Count("options_left_at_default", int64(7-set))
	}
	sig := ""
	if set > 0 {
		sig = bad + text
	}
	if r.WantSample() && set > 2 {
		r.Sample(vk.Q(text))
	}
	r.Case(sig)
}
