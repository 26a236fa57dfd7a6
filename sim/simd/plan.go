package main

import (
	"encoding/base64"
	"encoding/json"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/model"
	"verif/simrt"
)

// Plan is one simulated execution, completely: what the master has logged,
// how the network and the callbacks behave, which faults are injected where, and
// how the scheduler decides. Executing the same plan twice gives the same run.
type Plan struct {
	Prop      string         `json:"prop"`
	Index     uint64         `json:"index"`
	Sched     simrt.Sched    `json:"sched"`
	Hist      *model.History `json:"hist,omitempty"`
	Start     model.Position `json:"start"`
	ServerID  uint32         `json:"serverId"`
	TZ        int            `json:"tz"`
	Log       bool           `json:"log,omitempty"`
	Params    string         `json:"params,omitempty"`
	MaxAP     string         `json:"maxap,omitempty"`
	NetSeed   uint64         `json:"netSeed"`
	Odd       []Odd          `json:"odd,omitempty"` // attempts before those
	Attempts  []Attempt      `json:"attempts"`      // the last one is left undisturbed until everything is accepted
	Resume    []int          `json:"resume,omitempty"`
	Same      bool           `json:"same,omitempty"` // the resumed streams use the same streamer
	Twin      []Attempt      `json:"twin,omitempty"` // a second streamer at the same time
	TwinStart model.Position `json:"twinStart"`
	Scribble  int            `json:"scribble,omitempty"` // 0 never, 1 everything, 2 some values
	JSON      int            `json:"json,omitempty"`     // 1 in the handler, 2 in a consumer goroutine
	Synth     []uint64       `json:"synth,omitempty"`    // seeds of synthetic transactions to serialise
	Direct    []uint64       `json:"direct,omitempty"`   // seeds of direct decodings
	Caller    int            `json:"caller,omitempty"`   // callers of Error() after the stream ended
	Gtid      *GtidPlan      `json:"gtid,omitempty"`
	Budget    uint64         `json:"budget,omitempty"`
}

// Odd is a position that the master refuses; N calls of Stream ask for it.
type Odd struct {
	At model.Position `json:"at"`
	N  int            `json:"n"`
}

// Attempt is one call of Stream.
type Attempt struct {
	Ctx        string  `json:"ctx,omitempty"` // "" cancellable, "background", "deadline"
	Deadline   int     `json:"deadline,omitempty"`
	Cancel     *Cancel `json:"cancel,omitempty"`
	Faults     []Fault `json:"faults,omitempty"`
	HErr       int     `json:"hErr,omitempty"` // this call of the handler (from 1) fails
	HMsg       string  `json:"hMsg,omitempty"`
	EKind      int     `json:"eKind,omitempty"` // which error HErr and MErr return (0: an opaque one)
	HBlockAt   int     `json:"hBlockAt,omitempty"`
	HBlock     int     `json:"hBlock,omitempty"` // µs
	HSlow      int     `json:"hSlow,omitempty"`
	MErr       int     `json:"mErr,omitempty"`
	MMis       int     `json:"mMis,omitempty"` // this call returns a table with MDelta more columns
	MDelta     int     `json:"mDelta,omitempty"`
	MSlow      int     `json:"mSlow,omitempty"`
	Gap        int     `json:"gap,omitempty"`   // mean pause between packets, µs
	Win        int     `json:"win,omitempty"`   // receive window; 0 unlimited, 1 lock-step
	Frag       int     `json:"frag,omitempty"`  // mean fragment size; 0 none
	Delay      int     `json:"delay,omitempty"` // latency, µs
	Batch      int     `json:"batch,omitempty"` // packets per segment, about
	Linger     int     `json:"linger,omitempty"`
	Quiet      int     `json:"quiet,omitempty"` // seconds without any event before packet QuietAt
	QuietAt    int     `json:"quietAt,omitempty"`
	ErrCalls   int     `json:"errCalls,omitempty"`
	LateCancel bool    `json:"lateCancel,omitempty"` // cancel between the return of Stream and Error()
	EndEOF     bool    `json:"endEof,omitempty"`     // the undisturbed attempt ends by EOF instead of cancellation
	DialDelay  int     `json:"dialDelay,omitempty"`
}

// Cancel says when the caller cancels.
type Cancel struct {
	At string `json:"at"` // pre time dial greet auth set dump packet handler mapper fault
	N  int    `json:"n,omitempty"`
	D  int    `json:"d,omitempty"` // delay, µs
}

// Fault is injected by the master, the network or the dialer.
type Fault struct {
	K     string `json:"k"`
	At    int    `json:"at,omitempty"` // packet of the dump before which it happens (modulo the number of packets)
	Stage string `json:"stage,omitempty"`
	N     int    `json:"n,omitempty"`
	Code  int    `json:"code,omitempty"`
	Msg   string `json:"msg,omitempty"`
	State bool   `json:"state,omitempty"`
	Type  byte   `json:"type,omitempty"`
	Mode  string `json:"mode,omitempty"`
	Body  []byte `json:"body,omitempty"`
	Disc  bool   `json:"disc,omitempty"` // discard what is in flight
	Cont  bool   `json:"cont,omitempty"` // go on sending afterwards
}

// latent faults show in a later packet than the one they are in.
func (f *Fault) latent() bool { return f.Mode == "alg" || strings.HasPrefix(f.Mode, "tm") }

// Plans are JSON, but their strings are arbitrary bytes: those that are not valid
// UTF-8 are written as "\x00" and their base64 form.

type planAlias Plan

func (p *Plan) MarshalJSON() ([]byte, error) {
	q := planAlias(*p)
	v := mapStrings(reflect.ValueOf(q), func(s string) string {
		if utf8.ValidString(s) && !strings.HasPrefix(s, "\x00") {
			return s
		}
		return "\x00" + base64.StdEncoding.EncodeToString([]byte(s))
	})
	return json.Marshal(v.Interface())
}

func (p *Plan) UnmarshalJSON(b []byte) error {
	var q planAlias
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	var bad error
	v := mapStrings(reflect.ValueOf(q), func(s string) string {
		if !strings.HasPrefix(s, "\x00") {
			return s
		}
		d, err := base64.StdEncoding.DecodeString(s[1:])
		if err != nil {
			bad = err
		}
		return string(d)
	})
	*p = Plan(v.Interface().(planAlias))
	return bad
}

// mapStrings is a deep copy of v with every string mapped.
func mapStrings(v reflect.Value, f func(string) string) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.String:
		out.SetString(f(v.String()))
	case reflect.Ptr:
		if !v.IsNil() {
			n := reflect.New(v.Type().Elem())
			n.Elem().Set(mapStrings(v.Elem(), f))
			out.Set(n)
		}
	case reflect.Slice:
		if !v.IsNil() {
			if v.Type().Elem().Kind() == reflect.Uint8 {
				out.Set(v)
				break
			}
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(mapStrings(v.Index(i), f))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(mapStrings(v.Field(i), f))
			}
		}
	case reflect.Map, reflect.Interface:
		panic("plan: unsupported kind")
	default:
		out.Set(v)
	}
	return out
}
