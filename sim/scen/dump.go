package scen

import (
	"fmt"
	"strings"
)

var kindNames = map[itemKind]string{
	kEv: "step", kPipe: "pipe", kBefore: "Before", kAction: "At(Action)", kAfter: "After", kInit: "Initializer",
	kValidator: "At(Validator)", kSetup: "Setup", kHookBefore: "HookBefore", kHookAfter: "HookAfter", kCustomize: "Customize",
	kMiddleware: "middleware", kSuppress: "SuppressError", kAddFlag: "AddFlag", kIfMatch: "IfMatch", kProto: "Prototype",
	kCtxCall: "c.At", kRecover: "Recover",
	kSleep: "sleep", kTimeout: "Timeout", kSignal: "HandleSignal", kCtxValue: "ContextValue", kSetCtx: "SetContext", kCheck: "check", kRaise: "raise",
	kValue: "ProvideValueInitializer", kAddArg: "AddArg", kAddCmd: "AddCommand", kRename: "Named", kTrigger: "Trigger",
}

func dumpItems(l []*item) string {
	var sb []string
	for _, it := range l {
		s := kindNames[it.kind]
		if it.id != "" {
			s += " " + it.id
		}
		if it.form != 0 {
			s += fmt.Sprintf("/%d", it.form)
		}
		if it.pattern != "" {
			s += fmt.Sprintf(" %q", it.pattern)
		}
		if it.kind == kMiddleware {
			s += fmt.Sprintf(" x%d", it.n)
			if it.swallow {
				s += " swallow"
			}
			if it.post != "" {
				s += " post"
			}
		}
		if it.dur != 0 {
			s += fmt.Sprint(" ", it.dur)
		}
		if it.key != "" {
			s += " " + it.key + "=" + it.val
		}
		if it.sigs != nil {
			s += fmt.Sprint(" ", it.sigs)
		}
		if it.kind == kIfMatch {
			if it.form == 3 {
				s += fmt.Sprint(" ", filterModes[it.n].mode)
			} else {
				s += fmt.Sprint(" ", it.n == 1)
			}
			if it.optional {
				s += " asserted"
			}
		}
		if it.kind == kCtxCall {
			s += " " + timingWord(it.timing)
		}
		if len(it.items) > 0 {
			s += "(" + dumpItems(it.items) + ")"
		}
		for _, o := range it.args {
			s += "(" + dumpOpt(o) + ")"
		}
		if it.opt != nil {
			s += "(" + dumpOpt(it.opt) + ")"
		}
		if it.cmd != nil {
			s += "(" + dumpSub(it.cmd) + ")"
		}
		s += dumpPhases(it.uses, it.before, it.action, it.after)
		sb = append(sb, s)
	}
	return strings.Join(sb, ", ")
}

func dumpPhases(uses, before, action, after []*item) string {
	s := ""
	for i, l := range [][]*item{uses, before, action, after} {
		if len(l) > 0 {
			s += fmt.Sprintf(" %s:[%s]", []string{"uses", "before", "action", "after"}[i], dumpItems(l))
		}
	}
	return s
}

// dumpSub is a command on one line.
func dumpSub(c *cmdSpec) string {
	s := ""
	dumpCmd(c, "", func(f string, a ...any) { s += fmt.Sprintf(f, a...) + "; " })
	return s
}

func dumpOpt(o *optSpec) string {
	s := o.name
	if o.first != nil {
		s += fmt.Sprintf(" at first %q", *o.first)
	}
	if o.trigger {
		s += " triggered"
	}
	if o.no {
		s += " with no-"
	}
	if o.nonPersistent {
		s += " nonpersistent"
	}
	return s + dumpPhases(o.uses, o.before, o.action, o.after)
}

func dumpCmd(c *cmdSpec, indent string, ev func(string, ...any)) {
	name := c.name
	if c.first != nil {
		name += fmt.Sprintf(" at first %q", *c.first)
	}
	ev("%scommand %s %s%s", indent, name, c.alias, dumpPhases(c.uses, c.before, c.action, c.after))
	for _, o := range c.opts {
		ev("%s  option %s", indent, dumpOpt(o))
	}
	for _, s := range c.subs {
		dumpCmd(s, indent+"  ", ev)
	}
}
