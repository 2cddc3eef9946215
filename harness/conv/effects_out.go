package conv

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// The panel-to-system direction: what a message reports, and an independent
// reader of its lines.

// outMode tells how text payloads and readings are compared: exact (decoding),
// or as the grammar carries them (encoding: flattened payloads modulo white
// space, temperatures with one decimal, the voltage with two).
type outMode struct{ exact bool }

var outFlow = map[rwp.OutboundMessage_FlowMsg]string{1: "ping", 2: "ack", 3: "nack", 4: "BSY", 5: "RDY", 100: "list"}
var panelTypeWord = map[rwp.PanelInfo_PanelTypeE]string{1: "BPI", 2: "Physical", 3: "Emulation", 4: "Touch", 5: "Composite"}
var healthWord = []string{"Normal", "Safemode", "Blocked"}

type supportFlag struct {
	word string
	get  func(*rwp.RawPanelSupport) *bool
}

var supportFlags = []supportFlag{
	{"ASCII", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII }},
	{"Binary", func(s *rwp.RawPanelSupport) *bool { return &s.Binary }},
	{"JSONFeedback", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_JSONfeedback }},
	{"JSONonInbound", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_Inbound }},
	{"JSONonOutbound", func(s *rwp.RawPanelSupport) *bool { return &s.ASCII_Outbound }},
	{"System", func(s *rwp.RawPanelSupport) *bool { return &s.System }},
	{"RawADCValues", func(s *rwp.RawPanelSupport) *bool { return &s.RawADCValues }},
	{"BurninProfile", func(s *rwp.RawPanelSupport) *bool { return &s.BurninProfile }},
	{"EnvHealth", func(s *rwp.RawPanelSupport) *bool { return &s.EnvHealth }},
	{"Registers", func(s *rwp.RawPanelSupport) *bool { return &s.Registers }},
	{"Calibration", func(s *rwp.RawPanelSupport) *bool { return &s.Calibration }},
	{"Processors", func(s *rwp.RawPanelSupport) *bool { return &s.Processors }},
	{"NetworkSettings", func(s *rwp.RawPanelSupport) *bool { return &s.NetworkSettings }},
}

func (o outMode) text(s string, svg bool) string {
	if o.exact {
		return s
	}
	return flat(s, svg)
}

func (o outMode) sysStat(s *rwp.SystemStat) string {
	f1, f2 := "%.1f", "%.2f"
	if o.exact {
		f1, f2 = "%g", "%g"
	}
	return fmt.Sprintf("cpu=%d t="+f1+" x="+f1+" v="+f2+" f=%d/%d/%d mem=%d/%d/%d/%d/%d flags=%v,%v,%v,%v,%v,%v,%v,%v", s.CPUUsage, s.CPUTemp, s.ExtTemp, s.CPUVoltage,
		s.CPUFreqCurrent, s.CPUFreqMin, s.CPUFreqMax, s.MemTotal, s.MemFree, s.MemAvailable, s.MemBuffers, s.MemCached,
		s.UnderVoltageNow, s.UnderVoltage, s.FreqCapNow, s.FreqCap, s.ThrottledNow, s.Throttled, s.SoftTempLimitNow, s.SoftTempLimit)
}

func eventEffs(e *rwp.HWCEvent) (out []Eff) {
	add := func(d string, a ...any) { out = append(out, Eff{"event", fmt.Sprint(e.HWCID), fmt.Sprintf(d, a...)}) }
	if b := e.Binary; b != nil {
		add("pressed=%v edge=%d", b.Pressed, b.Edge)
	}
	if b := e.Pulsed; b != nil {
		add("enc %d", b.Value)
	}
	if b := e.Absolute; b != nil {
		add("abs %d", b.Value)
	}
	if b := e.Speed; b != nil {
		add("speed %d", b.Value)
	}
	if b := e.RawAnalog; b != nil {
		add("raw %d", b.Value)
	}
	return
}

// outboundEffects lists everything one message reports. Empty payloads and the
// zero values the format has no line for are not listed.
func (o outMode) outboundEffects(m *rwp.OutboundMessage) (out []Eff) {
	add := func(k, d string, a ...any) { out = append(out, Eff{"info", k, fmt.Sprintf(d, a...)}) }
	str := func(k, v string) {
		if v != "" {
			add(k, "%s", v)
		}
	}
	flat := func(k, v string) {
		if v = o.text(v, k == "topology-svg"); v != "" {
			add(k, "%s", v)
		}
	}
	num := func(k string, v uint32) {
		if v > 0 {
			add(k, "%d", v)
		}
	}
	if n := outFlow[m.FlowMessage]; n != "" {
		out = append(out, Eff{"flow", n, ""})
	}
	if p := m.PanelInfo; p != nil {
		str("model", p.Model)
		str("serial", p.Serial)
		str("version", p.SoftwareVersion)
		str("name", p.Name)
		str("platform", p.Platform)
		if p.BluePillReady {
			add("bluepillready", "true")
		}
		num("maxclients", p.MaxClients)
		if len(p.LockedToIPs) > 0 {
			add("lockedtoips", "%q", p.LockedToIPs)
		}
		str("paneltype", panelTypeWord[p.PanelType])
		if s := p.RawPanelSupport; s != nil {
			var w []string
			for _, f := range supportFlags {
				if *f.get(s) {
					w = append(w, f.word)
				}
			}
			add("support", "%v", w)
		}
	}
	if p := m.PanelTopology; p != nil {
		flat("topology-svg", p.Svgbase)
		flat("topology-json", p.Json)
	}
	if p := m.BurninProfile; p != nil {
		flat("burnin", p.Json)
	}
	if p := m.NetworkConfig; p != nil {
		add("network", "%s", netDetail(p))
	}
	if p := m.CalibrationProfile; p != nil {
		flat("calibration", p.Json)
	}
	if p := m.DefaultCalibrationProfile; p != nil {
		flat("defaultcalibration", p.Json)
	}
	if p := m.SleepTimeout; p != nil {
		add("sleeptimer", "%d", p.Value)
	}
	if p := m.SleepState; p != nil {
		add("sleeping", "%v", p.IsSleeping)
	}
	if p := m.HeartBeatTimer; p != nil {
		add("heartbeat", "%d", p.Value)
	}
	if p := m.DimmedGain; p != nil {
		add("dimmedgain", "%d", p.Value)
	}
	if p := m.Connections; p != nil && len(p.Connection) > 0 {
		add("connections", "%q", p.Connection)
	}
	if p := m.RunTimeStats; p != nil {
		num("boots", p.BootsCount)
		num("totaluptime", p.TotalUptime)
		num("sessionuptime", p.SessionUptime)
		num("screensaver", p.ScreenSaveOnTime)
	}
	if p := m.ErrorMessage; p != nil {
		flat("errormsg", p.Message)
	}
	if p := m.Message; p != nil {
		flat("msg", p.Message)
	}
	for id, v := range m.HWCavailability {
		out = append(out, Eff{"map", fmt.Sprint(id), fmt.Sprint(v)})
	}
	if p := m.EnvironmentalHealth; p != nil && p.RunMode >= 0 && p.RunMode <= 2 {
		add("health", "%s", healthWord[p.RunMode])
	}
	if p := m.SysStat; p != nil {
		add("sysstat", "%s", o.sysStat(p))
	}
	for _, e := range m.Events {
		out = append(out, eventEffs(e)...)
	}
	for _, r := range m.Registers {
		out = append(out, regEff(r)...)
	}
	return
}

var outInfo = map[string]string{
	"_model": "model", "_serial": "serial", "_version": "version", "_name": "name", "_platform": "platform",
	"_panelTopology_svgbase": "topology-svg", "_panelTopology_HWC": "topology-json", "_burninProfile": "burnin", "_calibrationProfile": "calibration",
	"_defaultCalibrationProfile": "defaultcalibration", "ErrorMsg": "errormsg", "Msg": "msg",
	"_serverModeMaxClients": "maxclients", "_sleepTimer": "sleeptimer", "_heartBeatTimer": "heartbeat", "DimmedGain": "dimmedgain",
	"_bootsCount": "boots", "_totalUptimeMin": "totaluptime", "_sessionUptimeMin": "sessionuptime", "_screenSaverOnMin": "screensaver",
	"_isSleeping": "sleeping", "_bluePillReady": "bluepillready",
}

// zero-valued reports of these are not distinguishable from no report.
var noZero = map[string]bool{"maxclients": true, "boots": true, "totaluptime": true, "sessionuptime": true, "screensaver": true}

func parseInt(s string, signed bool) (int64, error) {
	if signed {
		return strconv.ParseInt(s, 10, 32)
	}
	if !allDigits(s) {
		return 0, fmt.Errorf("%q is not a decimal number", s)
	}
	return strconv.ParseInt(s, 10, 64)
}

func splitList(s, sep string) (out []string) {
	for _, p := range strings.Split(s, sep) {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return
}

// readOut interprets one panel line. grammar=false: not part of the grammar.
func (o outMode) readOut(line string) (out []Eff, grammar bool, err error) {
	if strings.Contains(line, "\n") {
		return nil, false, fmt.Errorf("line break inside the line")
	}
	switch line {
	case "":
		return nil, true, nil
	case "ping", "ack", "nack", "BSY", "RDY", "list":
		return []Eff{{"flow", line, ""}}, true, nil
	}
	key, arg, ok := strings.Cut(line, "=")
	if !ok {
		return nil, false, nil
	}
	info := func(k, d string, a ...any) ([]Eff, bool, error) {
		return []Eff{{"info", k, fmt.Sprintf(d, a...)}}, true, nil
	}
	if ev, ok := strings.CutPrefix(key, "HWC#"); ok {
		return readEvent(ev, arg)
	}
	if k, ok := outInfo[key]; ok {
		switch k {
		case "maxclients", "sleeptimer", "heartbeat", "dimmedgain", "boots", "totaluptime", "sessionuptime", "screensaver":
			v, e := parseInt(arg, false)
			if e != nil || v > 1<<32-1 {
				return nil, false, fmt.Errorf("bad number in %q", line)
			}
			if v == 0 && noZero[k] {
				return nil, true, nil
			}
			return info(k, "%d", v)
		case "sleeping", "bluepillready":
			v, e := parseInt(arg, false)
			if e != nil || v > 1 {
				return nil, false, fmt.Errorf("%q: the value is 0 or 1", line)
			}
			if v == 0 && k == "bluepillready" {
				return nil, true, nil
			}
			return info(k, "%v", v != 0)
		case "model", "serial", "version", "name", "platform":
			if arg == "" {
				return nil, true, nil
			}
			return info(k, "%s", arg)
		}
		if t := o.text(arg, k == "topology-svg"); t != "" {
			return info(k, "%s", t)
		}
		return nil, true, nil
	}
	switch key {
	case "_serverModeLockToIP", "_connections":
		l := splitList(arg, ";")
		if len(l) == 0 {
			return nil, true, nil
		}
		return info(map[string]string{"_serverModeLockToIP": "lockedtoips", "_connections": "connections"}[key], "%q", l)
	case "_panelType":
		for _, w := range panelTypeWord {
			if w == arg {
				return info("paneltype", "%s", arg)
			}
		}
		return nil, false, fmt.Errorf("unknown panel type %q", arg)
	case "_support":
		has := map[string]bool{}
		if arg != "" {
			for _, w := range strings.Split(arg, ",") {
				if !o.exact || !strings.HasPrefix(w, "zz") { // a capability this grammar does not know
					has[w] = true
				}
			}
		}
		var l []string
		for _, f := range supportFlags {
			if has[f.word] {
				l = append(l, f.word)
				delete(has, f.word)
			}
		}
		if len(has) > 0 {
			return nil, false, fmt.Errorf("unknown capability in %q", line)
		}
		return info("support", "%v", l)
	case "_networkConfig":
		n := &rwp.NetworkConfig{}
		if e := json.Unmarshal([]byte(arg), n); e != nil {
			return nil, false, e
		}
		return info("network", "%s", netDetail(n))
	case "EnvironmentalHealth":
		for _, w := range healthWord {
			if w == arg {
				return info("health", "%s", w)
			}
		}
		return nil, false, fmt.Errorf("unknown run mode %q", arg)
	case "map":
		a, b, ok := strings.Cut(arg, ":")
		va, e1 := parseInt(a, false)
		vb, e2 := parseInt(b, false)
		if !ok || e1 != nil || e2 != nil || va > 1<<32-1 || vb > 1<<32-1 {
			return nil, false, fmt.Errorf("bad map line %q", line)
		}
		return []Eff{{"map", fmt.Sprint(va), fmt.Sprint(vb)}}, true, nil
	case "SysStat":
		s, e := readSysStat(arg)
		if e == nil && !o.exact && strings.Contains(arg, "zz") {
			e = fmt.Errorf("unknown statistic in %q", line)
		}
		if e != nil {
			return nil, false, e
		}
		return info("sysstat", "%s", o.sysStat(s))
	}
	// registers share the inbound grammar
	for _, p := range []string{"Mem", "Flag#", "Shift", "State"} {
		if strings.HasPrefix(key, p) {
			return (&inReader{}).read(line)
		}
	}
	return nil, false, nil
}

func readEvent(target, arg string) ([]Eff, bool, error) {
	id, edge := target, "0"
	dotted := false
	if a, b, ok := strings.Cut(target, "."); ok {
		id, edge, dotted = a, b, true
	}
	nid, e1 := parseInt(id, false)
	ned, e2 := parseInt(edge, false)
	if e1 != nil || e2 != nil || nid > 1<<32-1 {
		return nil, false, fmt.Errorf("bad event target %q", target)
	}
	t := fmt.Sprint(nid)
	kind, val, hasVal := strings.Cut(arg, ":")
	switch kind {
	case "Down", "Up", "Press":
		if hasVal {
			return nil, false, fmt.Errorf("value on a binary event")
		}
		d := func(p bool) Eff { return Eff{"event", t, fmt.Sprintf("pressed=%v edge=%d", p, ned)} }
		switch kind {
		case "Down":
			return []Eff{d(true)}, true, nil
		case "Up":
			return []Eff{d(false)}, true, nil
		}
		return []Eff{d(true), d(false)}, true, nil
	case "Enc", "Speed", "Abs", "Raw":
		signed := kind == "Enc" || kind == "Speed"
		v, e := parseInt(val, signed)
		if e != nil || !hasVal || dotted || v > 1<<32-1 {
			return nil, false, fmt.Errorf("bad event %q=%q", target, arg)
		}
		return []Eff{{"event", t, fmt.Sprintf("%s %d", strings.ToLower(kind), v)}}, true, nil
	}
	return nil, false, nil
}

var sysInts = []struct {
	key string
	put func(*rwp.SystemStat, int64)
}{
	{"CPUUsage", func(s *rwp.SystemStat, v int64) { s.CPUUsage = uint32(v) }},
	{"CPUFreqCurrent", func(s *rwp.SystemStat, v int64) { s.CPUFreqCurrent = int32(v) }},
	{"CPUFreqMin", func(s *rwp.SystemStat, v int64) { s.CPUFreqMin = int32(v) }},
	{"CPUFreqMax", func(s *rwp.SystemStat, v int64) { s.CPUFreqMax = int32(v) }},
	{"MemTotal", func(s *rwp.SystemStat, v int64) { s.MemTotal = int32(v) }},
	{"MemFree", func(s *rwp.SystemStat, v int64) { s.MemFree = int32(v) }},
	{"MemAvailable", func(s *rwp.SystemStat, v int64) { s.MemAvailable = int32(v) }},
	{"MemBuffers", func(s *rwp.SystemStat, v int64) { s.MemBuffers = int32(v) }},
	{"MemCached", func(s *rwp.SystemStat, v int64) { s.MemCached = int32(v) }},
}
var sysBools = []struct {
	key string
	get func(*rwp.SystemStat) *bool
}{
	{"UnderVoltageNow", func(s *rwp.SystemStat) *bool { return &s.UnderVoltageNow }},
	{"UnderVoltage", func(s *rwp.SystemStat) *bool { return &s.UnderVoltage }},
	{"FreqCapNow", func(s *rwp.SystemStat) *bool { return &s.FreqCapNow }},
	{"FreqCap", func(s *rwp.SystemStat) *bool { return &s.FreqCap }},
	{"ThrottledNow", func(s *rwp.SystemStat) *bool { return &s.ThrottledNow }},
	{"Throttled", func(s *rwp.SystemStat) *bool { return &s.Throttled }},
	{"SoftTempLimitNow", func(s *rwp.SystemStat) *bool { return &s.SoftTempLimitNow }},
	{"SoftTempLimit", func(s *rwp.SystemStat) *bool { return &s.SoftTempLimit }},
}
var sysFloats = []struct {
	key string
	get func(*rwp.SystemStat) *float32
}{
	{"CPUTemp", func(s *rwp.SystemStat) *float32 { return &s.CPUTemp }},
	{"ExtTemp", func(s *rwp.SystemStat) *float32 { return &s.ExtTemp }},
	{"CPUVoltage", func(s *rwp.SystemStat) *float32 { return &s.CPUVoltage }},
}

// readSysStat reads key:value pairs. Keys in zz are not of the grammar.
func readSysStat(arg string) (*rwp.SystemStat, error) {
	s := &rwp.SystemStat{}
	p := strings.Split(strings.TrimSuffix(arg, ":"), ":")
	if len(p)%2 != 0 {
		return nil, fmt.Errorf("odd statistics list %q", arg)
	}
next:
	for i := 0; i < len(p); i += 2 {
		k, v := p[i], p[i+1]
		for _, f := range sysInts {
			if f.key == k {
				n, e := strconv.ParseInt(v, 10, 64)
				if e != nil {
					return nil, e
				}
				f.put(s, n)
				continue next
			}
		}
		for _, f := range sysBools {
			if f.key == k {
				if v != "0" && v != "1" {
					return nil, fmt.Errorf("%s is %q", k, v)
				}
				*f.get(s) = v == "1"
				continue next
			}
		}
		for _, f := range sysFloats {
			if f.key == k {
				n, e := strconv.ParseFloat(v, 32)
				if e != nil {
					return nil, e
				}
				*f.get(s) = float32(n)
				continue next
			}
		}
		if !strings.HasPrefix(k, "zz") {
			return nil, fmt.Errorf("unknown statistic %q", k)
		}
	}
	return s, nil
}

// canonicalOut sorts what has no order inside one message: everything but events.
func canonicalOut(in []Eff) []Eff {
	out := append([]Eff(nil), in...)
	sec := func(e Eff) int {
		switch {
		case e.Kind == "event":
			return 1
		case strings.HasPrefix(e.Kind, "reg-"):
			return 2
		}
		return 0
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if sec(a) != sec(b) {
			return sec(a) < sec(b)
		}
		if sec(a) == 1 {
			return false
		}
		if a.Kind != b.Kind {
			return a.Kind < b.Kind
		}
		return a.Target < b.Target
	})
	return out
}
