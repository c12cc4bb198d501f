package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"

	"verif/eng"
)

// encEntry is a way to encode one value.
type encEntry struct {
	name string
	f    func(t *eng.T, cfg *jzon.EncoderConfig, html bool, v interface{}) ([]byte, error)
}

// encEntries: the config has the default options (HTML escaping on); html is
// what the caller wants.
var encEntries = []encEntry{
	{"Marshal", func(t *eng.T, cfg *jzon.EncoderConfig, html bool, v interface{}) ([]byte, error) {
		if !html {
			c := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: false})
			return c.Marshal(v)
		}
		return cfg.Marshal(v)
	}},
	{"Encoder.Encode", func(t *eng.T, cfg *jzon.EncoderConfig, html bool, v interface{}) ([]byte, error) {
		var b bytes.Buffer
		e := cfg.NewEncoder(&b)
		defer e.Release()
		e.SetEscapeHTML(html)
		err := e.Encode(v)
		if err != nil {
			return b.Bytes(), err
		}
		out := b.Bytes()
		if len(out) == 0 || out[len(out)-1] != '\n' {
			return nil, fmt.Errorf("no newline")
		}
		return out[:len(out)-1], nil
	}},
	{"Streamer.Value", func(t *eng.T, cfg *jzon.EncoderConfig, html bool, v interface{}) ([]byte, error) {
		var b bytes.Buffer
		s := cfg.NewStreamer()
		defer s.Release()
		s.Reset(&b)
		s.EscapeHTML(html)
		s.Value(v)
		if s.Error != nil {
			return b.Bytes(), s.Error
		}
		err := s.Flush()
		return b.Bytes(), err
	}},
	{"Streamer.Value in an array", func(t *eng.T, cfg *jzon.EncoderConfig, html bool, v interface{}) ([]byte, error) {
		var b bytes.Buffer
		s := cfg.NewStreamer()
		defer s.Release()
		s.Reset(&b)
		s.EscapeHTML(html)
		s.ArrayStart().Value(v).Value(v).ArrayEnd()
		if s.Error != nil {
			return b.Bytes(), s.Error
		}
		if err := s.Flush(); err != nil {
			return nil, err
		}
		out := b.Bytes()
		n := len(out)
		if n < 3 || out[0] != '[' || out[n-1] != ']' || out[n/2] != ',' {
			return nil, fmt.Errorf("frame: %s", out)
		}
		return out[1 : n/2], nil
	}},
}

func pickEnc(t *eng.T) encEntry { return encEntries[t.W(5, 2, 2, 1)] }

// stdEncode is the reference encoding.
func stdEncode(v interface{}, html bool) ([]byte, error) {
	if html {
		return json.Marshal(v)
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return bytes.TrimSuffix(b.Bytes(), []byte{'\n'}), nil
}

// encConfig returns a config with the default options; a cold one for types
// made at run time.
func encConfig(t *eng.T, ty reflect.Type) *jzon.EncoderConfig {
	if ty.Name() != "" && t.Bool() {
		return jzon.DefaultEncoderConfig
	}
	return jzon.NewEncoderConfig(nil)
}
