package ics

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"
)

type vReplayIn struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	Tape    []uint64 `json:"tape"`
}

type vReplayOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

func vRun(in vReplayIn) (out vReplayOut) {
	vTape, vPos, vPrm, vObs, vCovers = in.Tape, 0, in.Params, nil, nil
	vReset()
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				out.Status, out.Msg = s.status, s.msg
			} else {
				out.Status, out.Msg = "panic", fmt.Sprint(r)
			}
		}
		out.Obs, out.Covers = vObs, vCovers
	}()
	h := vHarnesses[in.Harness]
	if h == nil {
		return vReplayOut{Status: "error", Msg: "no harness " + in.Harness}
	}
	h()
	out.Status = "ok"
	return
}

func TestZZVerifReplay(t *testing.T) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		t.Skip()
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var list []vReplayIn
	if err := json.Unmarshal(b, &list); err != nil {
		t.Fatal(err)
	}
	o, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	enc := json.NewEncoder(o)
	for _, in := range list {
		ch := make(chan vReplayOut, 1)
		go func() { ch <- vRun(in) }()
		select {
		case r := <-ch:
			enc.Encode(r)
		case <-time.After(8 * time.Second):
			// the goroutine cannot be stopped: report and leave
			enc.Encode(vReplayOut{Status: "hang", Msg: "no result after 8 s"})
			o.Close()
			os.Exit(3)
		}
	}
}
