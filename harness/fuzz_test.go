package main

// Coverage-guided search over the choices of the generators: the fuzzer of
// package testing mutates the random bits from which a case is made. Used by the
// thorough runs.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

func FuzzProp(f *testing.F) {
	logrus.SetOutput(io.Discard)
	p := props[os.Getenv("VERIF_PROP")]
	base := os.Getenv("VERIF_FUZZ")
	if p == nil || base == "" {
		f.Skip("no property")
	}
	own := filepath.Join(base, strconv.Itoa(os.Getpid()))
	herr(os.MkdirAll(own, 0700))
	herr(os.Setenv("VERIF_SCRATCH", own))
	cur, err := os.Create(filepath.Join(base, fmt.Sprintf("current-%d", os.Getpid())))
	herr(err)
	listed := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		listed[k] = true
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	for i := 0; i < 60; i++ {
		data := make([]byte, 8*(200+rng.Intn(3000)))
		for j := 0; j < len(data); j += 8 {
			binary.LittleEndian.PutUint64(data[j:], rng.Uint64())
		}
		f.Add(data)
	}
	go watchdog()
	f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
		data, err := json.Marshal(p.gen(rt))
		herr(err)
		writeCurrent(cur, data)
		c, err := p.decode(data)
		herr(err)
		beginCase()
		err = p.runCase(c, &Rec{})
		endCase()
		switch e := err.(type) {
		case nil:
			return
		case *harnessError:
			panic(e)
		case *finding:
			if listed[e.key] {
				return
			}
		}
		herr(writeReplay(filepath.Join(base, "replay.json"), p.ID, err.Error(), data))
		rt.Fatalf("property violated: %v", err)
	}))
}
