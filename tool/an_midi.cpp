// What a MIDI byte, message or controller does: every path of the decoder is compared with the MIDI specification,
// one abstract case (interval of the byte, interval of the stored status, parser mode) at a time.
#include "sim.h"

namespace {
struct Midi : SimRule {
  using SimRule::SimRule;
  // ---- the byte decoder -------------------------------------------------------------------
  void decoder() {
    auto *F = P.M->getFunction("EAS_ParseMIDIStream");
    if (!F || F->isDeclaration() || F->arg_size() != 5) { R.broken.push_back("the MIDI byte decoder (EAS_ParseMIDIStream) is not there"); return; }
    auto *strm = F->getArg(2);
    Sim S(P, MR, *F, "s_midi_stream_tag", [&](const Addr &A) { return A.root == strm && A.steps.size() == 1; });
    for (auto *f : {"byte3", "pending", "runningStatus", "status", "d1", "d2", "sysExState"})
      if (!S.ph.count(f)) { R.broken.push_back(std::string("the decoder keeps no ") + f); return; }
    R.note("decoder_fields", "byte3 pending runningStatus status d1 d2 sysExState");
    auto expect = [&](const std::string &key, const std::string &what, In in, const std::map<std::string, Want> &want, const std::vector<Call> &ev) {
      cases++;
      auto outs = S.run(in);
      if (outs.empty()) { R.add(key, locF(F), what + ": no path returns"); return; }
      for (auto &o : outs) {
        std::string w = compare(S, in, o, want);
        if (w.empty()) w = compareEvents(o, ev);
        if (!w.empty()) fail(*F, key, what, w, o);
      }
    };
    auto base = [&](unsigned lo, unsigned hi, unsigned mode) {
      In in;
      in.args.insert_or_assign(3, range8(lo, hi));
      in.args.insert_or_assign(4, CR(APInt(32, mode)));
      return in;
    };
    Want same{Want::Same, {}}, any{Want::Any, {}}, zero{Want::Zero, {}}, set{Want::NonZero, {}};
    auto is = [](Bits b) { return Want{Want::Is, b}; };
    for (unsigned m = 0; m < 4; m++) {
      std::string in_ = std::string(" (") + modeName[m] + ")";
      // real-time messages may appear anywhere and leave everything as it is
      expect("realtime", "a real-time byte f8..ff" + in_, base(0xf8, 0xff, m),
             {{"byte3", same}, {"pending", same}, {"runningStatus", same}, {"status", same}, {"d1", same}, {"d2", same}, {"sysExState", same}}, {});
      // a status byte starts a message whatever came before
      struct { unsigned lo, hi; } st[] = {{0x80, 0x8f}, {0x90, 0x9f}, {0xa0, 0xaf}, {0xb0, 0xbf}, {0xc0, 0xcf}, {0xd0, 0xdf}, {0xe0, 0xef}, {0xf1, 0xf1}, {0xf2, 0xf2}, {0xf3, 0xf3}};
      for (auto &s : st) {
        In in = base(s.lo, s.hi, m);
        expect("status", "a status byte " + span(s.lo, s.hi) + in_, in, {{"byte3", zero}, {"pending", set}, {"runningStatus", is(S.arg(3, &in.args.find(3)->second))}}, {});
      }
      {
        In in = base(0xf4, 0xf6, m);
        expect("status", "a status byte f4..f6" + in_, in, {{"byte3", zero}, {"runningStatus", is(S.arg(3, &in.args.find(3)->second))}}, {});
      }
      // data bytes
      CR no = range8(0, 0), yes = range8(1, 0xff);
      for (unsigned hi = 0x8; hi <= 0xf; hi++) {
        // last byte of a message of three
        for (unsigned z = 0; z < 2; z++) {
          In in = base(z ? 1 : 0, z ? 0x7f : 0, m);
          CR sr = range8(hi << 4, hi << 4 | 15);
          in.cells.insert_or_assign("byte3", yes);
          in.cells.insert_or_assign("status", sr);
          Bits c = S.arg(3, &in.args.find(3)->second), stt = S.sym("status", &sr), d1 = S.sym("d1"), ch = stt & Bits::num(8, 15);
          if (hi == 0xf) {
            expect("unknown", "the last data byte of a system message" + in_, in, {{"byte3", zero}, {"pending", zero}}, {});
            continue;
          }
          std::vector<Call> ev;
          bool tracked = m != META;
          if (tracked) switch (hi) {
            case 0x8: ev.push_back({"VMStopNote", {ch, d1, c}}); break;
            case 0x9: if (z) { if (m == PLAY) ev.push_back({"VMStartNote", {ch, d1, c}}); } else ev.push_back({"VMStopNote", {ch, d1}}); break;
            case 0xb: ev.push_back({"VMControlChange", {ch, d1, c}}); break;
            case 0xe: ev.push_back({"VMPitchBend", {ch, d1, c}}); break;
            default: break;
            }
          // program change and pressure have one data byte: byte3 is never set for them
          if (hi == 0xc || hi == 0xd) continue;
          const char *nm[] = {"note off", "note on", "key pressure", "control change", "", "", "pitch bend"};
          std::string what = std::string("a ") + nm[hi - 8] + " message" + (hi == 9 ? z ? " with a velocity" : " with velocity 0" : "") + in_;
          expect(std::string("message:") + nm[hi - 8], what, in, {{"byte3", zero}, {"pending", zero}, {"runningStatus", same}, {"status", same}, {"d1", same}}, ev);
        }
        // first data byte
        In in = base(0, 0x7f, m);
        CR sr = range8(hi << 4, hi << 4 | 15);
        Bits c = S.arg(3, &in.args.find(3)->second);
        in.cells.insert_or_assign("byte3", no);
        if (hi < 0xf) {
          in.cells.insert_or_assign("runningStatus", sr);
          Bits rs = S.sym("runningStatus", &sr), ch = rs & Bits::num(8, 15);
          if (hi == 0xc || hi == 0xd) {
            std::vector<Call> ev;
            if (m != META) ev.push_back({hi == 0xc ? "VMProgramChange" : "VMChannelPressure", {ch, c}});
            expect(hi == 0xc ? "message:program change" : "message:channel pressure", std::string("a ") + (hi == 0xc ? "program change" : "channel pressure") + " message" + in_, in,
                   {{"byte3", zero}, {"pending", zero}, {"runningStatus", same}, {"d1", is(c)}}, ev);
          } else
            expect("data", "the first data byte of a message " + hex(hi << 4) + in_, in, {{"byte3", set}, {"pending", set}, {"runningStatus", same}, {"status", is(rs)}, {"d1", is(c)}}, {});
        } else {
          In a = in;
          a.cells.insert_or_assign("runningStatus", range8(0, 0));
          expect("no-status", "a data byte without a status" + in_, a, {{"byte3", zero}, {"pending", zero}, {"runningStatus", same}}, {});
          for (unsigned x : {0xf1u, 0xf2u, 0xf3u, 0xf4u, 0xf7u}) {
            unsigned hi2 = x == 0xf4 ? 0xf6 : x;
            In b = in;
            b.cells.insert_or_assign("runningStatus", range8(x, hi2));
            std::map<std::string, Want> w{{"runningStatus", zero}};
            w.insert({"byte3", x == 0xf2 ? set : zero});
            if (x == 0xf2) { CR q = range8(x, x); w.insert({"status", is(S.sym("runningStatus", &q))}); }
            expect("system", "a data byte after " + span(x, hi2) + in_, b, w, {});
          }
        }
      }
      sysex(S, *F, m, base);
    }
    R.stats["decoder_cases"] += cases;
    R.stats["decoder_walks"] += S.walks;
    R.stats["decoder_paths"] += S.outs;
  }

  // ---- system exclusive messages: the automaton the code implements against the one of the specification -----
  template <class B> void sysex(Sim &S, const Function &F, unsigned m, B base) {
    std::string in_ = std::string(" (") + modeName[m] + ")";
    bool fx = m != META;
    auto stateOf = [&](const Outcome &o, int &s) { auto it = o.cells.find("sysExState"); if (it == o.cells.end() || !it->second.constant()) return false; s = it->second.value(); return true; };
    // start: f0 in any state
    auto start = S.run(base(0xf0, 0xf0, m));
    std::set<int> s0;
    for (auto &o : start) {
      int s = -1;
      Want z{Want::Zero, {}};
      Bits f0 = Bits::num(8, 0xf0);
      std::string w = compare(S, {}, o, {{"byte3", z}, {"runningStatus", Want{Want::Is, f0}}});
      if (fx && !stateOf(o, s)) w = "the state is not set";
      if (w.empty()) w = compareEvents(o, {});
      if (!w.empty()) fail(F, "sysex-start", "the start of a system exclusive message" + in_, w, o);
      if (s >= 0) s0.insert(s);
    }
    if (!fx) {
      // nothing is done with the contents
      In d = base(0, 0x7f, m);
      d.cells.insert_or_assign("byte3", range8(0, 0));
      d.cells.insert_or_assign("runningStatus", range8(0xf0, 0xf0));
      Want z{Want::Zero, {}}, same{Want::Same, {}};
      for (auto &in : {d, base(0xf7, 0xf7, m)})
        for (auto &o : S.run(in)) {
          std::string w = compareEvents(o, {});
          if (w.empty()) w = compare(S, in, o, {{"byte3", z}});
          if (!w.empty()) fail(F, "sysex-scan", "a system exclusive byte" + in_, w, o);
        }
      cases += 3;
      return;
    }
    if (s0.size() != 1) { R.add("sysex-start", locF(&F), "the start of a system exclusive message leads to different states"); return; }
    enum Q { Start, NonReal, NRTarget, GM, Real, RTarget, Dev, VolLSB, VolMSB, SP, Chan, Mip, Done, Ign };
    // classes of bytes the specification and the code distinguish
    std::vector<std::pair<unsigned, unsigned>> cls;
    {
      std::set<unsigned> cut{0, 0x80};
      for (unsigned v : {0x7eu, 0x7fu, 9u, 1u, 3u, 4u, 0xbu, 0x10u}) cut.insert(v), cut.insert(v + 1);
      unsigned p = 0;
      for (unsigned c : cut) { if (c > p && c <= 0x80) cls.push_back({p, c - 1}); p = c; }
    }
    std::map<std::pair<int, int>, std::string> word;
    std::vector<std::pair<int, int>> todo{{*s0.begin(), Start}};
    word[todo[0]] = "f0";
    // states for which the automaton of the code does nothing any more, whatever follows
    for (size_t i = 0; i < todo.size(); i++) {
      auto [st, q] = todo[i];
      std::string wd = word[todo[i]];
      words++;
      for (auto &c : cls)
      for (unsigned last = 0; last < (q == Mip ? 2 : 1); last++) {
        In in = base(c.first, c.second, m);
        in.cells.insert_or_assign("byte3", range8(0, 0));
        in.cells.insert_or_assign("runningStatus", range8(0xf0, 0xf0));
        in.cells.insert_or_assign("sysExState", CR(APInt(8, st)));
        CR dr = last ? range8(15, 15) : range8(0, 14);
        if (q == Mip) in.cells.insert_or_assign("d1", dr);
        Bits cb = S.arg(3, &in.args.find(3)->second);
        for (auto &o : S.run(in)) {
          cases++;
          std::vector<std::pair<Q, std::vector<Call>>> next; // what the specification allows (several when it depends on the count)
          std::map<std::string, Want> want{{"byte3", {Want::Zero, {}}}, {"runningStatus", {Want::Same, {}}}};
          auto one = [&](unsigned v) { return c.first == v && c.second == v; };
          switch (q) {
          case Start: next = {{one(0x7e) ? NonReal : one(0x7f) ? Real : Ign, {}}}; break;
          case NonReal: next = {{one(0x7f) ? NRTarget : Ign, {}}}; break;
          case NRTarget: next = {{one(9) ? GM : Ign, {}}}; break;
          case GM:
            if (one(1) || one(3)) {
              next = {{Ign, {{"VMReset", {Bits::num(32, 0)}}, {"VMInitMIPTable", {}}}}};
            } else next = {{Ign, {}}};
            break;
          case Real: next = {{one(0x7f) ? RTarget : Ign, {}}}; break;
          case RTarget: next = {{one(4) ? Dev : one(0xb) ? SP : Ign, {}}}; break;
          case Dev: next = {{one(1) ? VolLSB : Ign, {}}}; break;
          case VolLSB: next = {{VolMSB, {}}}; want.insert_or_assign("d1", Want{Want::Is, cb}); break;
          case VolMSB: next = {{Ign, {{"VMSetVolume", {}}}}}; break;
          case SP:
            if (one(1)) { next = {{Chan, {{"VMInitMIPTable", {}}}}}; want.insert_or_assign("d1", Want{Want::Zero, {}}); }
            else next = {{Ign, {}}};
            break;
          case Chan:
            if (c.second < 16) { next = {{Mip, {}}}; want.insert_or_assign("d2", Want{Want::Is, cb}); want.insert_or_assign("d1", Want{Want::Same, {}}); }
            else next = {{Ign, {{"VMInitMIPTable", {}}}}};
            break;
          case Mip: {
            Call e{"VMSetMIPEntry", {S.sym("d2"), S.sym("d1", &dr), cb}};
            if (last) next = {{Ign, {e, {"VMUpdateMIPTable", {}}}}};
            else {
              next = {{Chan, {e}}};
              Want w{Want::Linear, {}};
              w.l.ok = true;
              w.l.t[S.sy.of(S.ph["d1"].get())] = 1;
              w.l.c = 1;
              want.insert_or_assign("d1", w);
            }
            break;
          }
          case Done: case Ign: next = {{Ign, {}}}; break;
          }
          std::string first;
          Q to = Ign;
          bool ok = false;
          for (auto &n : next) {
            std::string w = compareEvents(o, n.second);
            if (w.empty()) { ok = true; to = n.first; break; }
            if (first.empty()) first = w;
          }
          std::string w = ok ? compare(S, in, o, want) : first;
          if (w.empty() && q == VolMSB && ok) w = volume(S, o, cb);
          int ns = -1;
          if (w.empty() && !stateOf(o, ns)) w = "the next state is not fixed";
          if (!w.empty()) { fail(F, "sysex", "after " + wd + ", byte " + span(c.first, c.second) + in_, w, o); continue; }
          auto p = std::make_pair(ns, (int)to);
          if (!word.count(p) && word.size() < 400) { word[p] = wd + " " + span(c.first, c.second); todo.push_back(p); }
        }
      }
      // the end of the message
      In in = base(0xf7, 0xf7, m);
      in.cells.insert_or_assign("sysExState", CR(APInt(8, st)));
      for (auto &o : S.run(in)) {
        cases++;
        std::vector<Call> ev;
        if (q == Chan) ev.push_back({"VMUpdateMIPTable", {}});
        std::string w = compareEvents(o, ev);
        if (!w.empty()) fail(F, "sysex-end", "after " + wd + ", the end of the message" + in_, w, o);
      }
    }
    R.stats["sysex_states"] = std::max<long>(R.stats["sysex_states"], word.size());
    for (auto &kv : word) R.note("sysex_words", kv.second);
  }
  // the gain is the square of the 14 bit value, all as fractions of 16 bits
  std::string volume(Sim &S, const Outcome &o, const Bits &c) {
    for (auto *e : o.events)
      if (e->fn == "VMSetVolume")
        for (size_t i = 0; i < e->args.size(); i++) {
          if (e->ptrs[i]) continue;
          auto &q = e->square[i];
          if (q.second < 0) return "";
          Bits d1 = S.sym("d1").zext(64), want = (c.zext(64).shl(8)) | ((d1 & Bits::num(64, 0x7f)).shl(1)), full = (c.zext(64).shl(8)) | d1.shl(1);
          Bits x = q.first.zext(64);
          if (q.second != 15 || !(x == want || x == full)) return "the master volume is not the square of the 14 bit value";
        }
    return "";
  }
};

// ---- what channel messages do to their channel --------------------------------------------
struct Channel : Midi {
  using Midi::Midi;
  enum { SUSTAIN = 1, UPDATE = 4, RHYTHM = 8 };
  std::unique_ptr<Sim> sim(const char *fn, unsigned synthArg, unsigned chArg, unsigned nargs) {
    auto *F = P.M->getFunction(fn);
    if (!F || F->isDeclaration() || F->arg_size() != nargs) { R.broken.push_back(std::string(fn) + " is not there"); return nullptr; }
    auto *syn = F->getArg(synthArg);
    auto *ch = F->getArg(chArg);
    return std::make_unique<Sim>(P, MR, *F, "s_synth_channel_tag", [=, this](const Addr &A) {
      if (A.root != syn || A.steps.size() != 3 || A.steps[0].k != Step::Field || A.steps[0].st != "s_synth_tag" || A.steps[1].k != Step::Index) return false;
      if (fieldName(P, A.steps[0].st, A.steps[0].idx) != "channels") return false;
      const Value *v = A.steps[1].var;
      while (isa<ZExtInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0);
      return v == ch;
    });
  }
  // every field the function touches stays as it is unless stated; the change is announced to the synthesizer
  void expect(Sim &S, const std::string &key, const std::string &what, const In &in, std::map<std::string, Want> want, const std::vector<std::vector<Call>> &evs, bool update = true) {
    cases++;
    auto outs = S.run(in);
    if (outs.empty()) { R.add(key, locF(&S.F), what + ": no path returns"); return; }
    for (auto &p : S.ph)
      if (!want.count(p.first) && p.first != "channelFlags") want.insert({p.first, Want{Want::Same, {}}});
    for (auto &w : want) if (w.second.k != Want::Same && !S.ph.count(w.first)) { R.add(key, locF(&S.F), what + ": " + w.first + " is not set"); return; }
    for (auto &o : outs) {
      std::string w = compare(S, in, o, want), first;
      if (w.empty()) {
        bool ok = evs.empty();
        for (auto &e : evs) { std::string x = compareEvents(o, e); if (x.empty()) { ok = true; break; } if (first.empty()) first = x; }
        if (!ok) w = first;
      }
      if (w.empty() && update) {
        auto f = o.cells.find("channelFlags");
        if (f == o.cells.end() || f->second.b[2] != 1) w = "the voices of the channel are not told to update";
      }
      if (!w.empty()) fail(S.F, key, what, w, o);
    }
  }
  Want is(Bits b) { return Want{Want::Is, b}; }
  Want flags(Bits old, unsigned setMask, unsigned clearMask) {
    Want w{Want::Mask, old};
    w.mask = 0xff & ~UPDATE;
    for (unsigned i = 0; i < 8; i++) if (setMask >> i & 1) w.b.b[i] = 1; else if (clearMask >> i & 1) w.b.b[i] = 0;
    return w;
  }
  void run() {
    simple();
    control();
    program();
    R.stats["channel_cases"] = cases;
  }
  void simple() {
    if (auto S = sim("VMChannelPressure", 0, 1, 3)) {
      In in;
      in.args.insert_or_assign(1, range8(0, 15));
      in.args.insert_or_assign(2, range8(0, 127));
      expect(*S, "channel pressure", "channel pressure", in, {{"channelPressure", is(S->arg(2, &in.args.find(2)->second))}, {"channelFlags", flags(S->sym("channelFlags"), 0, 0)}}, {{}});
    }
    if (auto S = sim("VMPitchBend", 0, 1, 4)) {
      In in;
      in.args.insert_or_assign(1, range8(0, 15));
      CR r = range8(0, 127);
      in.args.insert_or_assign(2, r);
      in.args.insert_or_assign(3, r);
      Bits v = S->arg(3, &r).zext(16).shl(7) | S->arg(2, &r).zext(16);
      expect(*S, "pitch bend", "pitch bend", in, {{"pitchBend", is(v)}, {"channelFlags", flags(S->sym("channelFlags"), 0, 0)}}, {{}});
    }
  }
  void control() {
    auto S = sim("VMControlChange", 1, 2, 5);
    if (!S) return;
    auto &F = S->F;
    CR vr = range8(0, 127);
    auto base = [&](unsigned c, unsigned lo = 0, unsigned hi = 127) {
      In in;
      in.args.insert_or_assign(2, range8(0, 15));
      in.args.insert_or_assign(3, range8(c, c));
      in.args.insert_or_assign(4, range8(lo, hi));
      return in;
    };
    Bits ch; { CR c = range8(0, 15); ch = S->arg(2, &c); }
    Bits v = S->arg(4, &vr), fl = S->sym("channelFlags");
    auto keepFlags = flags(fl, 0, 0);
    auto value = [&](unsigned c, const char *name, const char *field) {
      expect(*S, std::string("controller:") + name, std::string("controller ") + std::to_string(c) + " (" + name + ")", base(c), {{field, is(v)}, {"channelFlags", keepFlags}}, {{}});
    };
    value(1, "modulation", "modWheel");
    value(7, "volume", "volume");
    value(10, "pan", "pan");
    value(11, "expression", "expression");
    // bank select
    CR br = CR(APInt(16, 0), APInt(16, 0x8000)); // two parts of seven bits, eight apart
    Bits bank = S->sym("bankNum", &br);
    auto bankAt = [&](unsigned c) { In in = base(c); in.cells.insert_or_assign("bankNum", br); return in; };
    expect(*S, "controller:bank msb", "controller 0 (bank select)", bankAt(0), {{"bankNum", is(v.zext(16).shl(8))}, {"channelFlags", keepFlags}}, {{}});
    expect(*S, "controller:bank lsb", "controller 32 (bank select, low part)", bankAt(32), {{"bankNum", is((bank & Bits::num(16, 0xff00)) | v.zext(16))}, {"channelFlags", keepFlags}}, {{}});
    // registered parameters: 14 bit number
    {
      CR rp = CR(APInt(16, 0), APInt(16, 0x4000));
      In m = base(101), l = base(100);
      m.cells.insert_or_assign("registeredParam", rp);
      l.cells.insert_or_assign("registeredParam", rp);
      Bits old = S->sym("registeredParam", &rp);
      expect(*S, "controller:rpn msb", "controller 101 (registered parameter, high part)", m, {{"registeredParam", is((old & Bits::num(16, 0x7f)) | v.zext(16).shl(7))}, {"channelFlags", keepFlags}}, {{}}, false);
      expect(*S, "controller:rpn lsb", "controller 100 (registered parameter, low part)", l, {{"registeredParam", is((old & Bits::num(16, 0x3f80)) | v.zext(16))}, {"channelFlags", keepFlags}}, {{}}, false);
      for (unsigned c : {98u, 99u})
        expect(*S, "controller:nrpn", "controller " + std::to_string(c) + " (unregistered parameter)", base(c), {{"registeredParam", is(Bits::num(16, 0x3fff))}, {"channelFlags", keepFlags}}, {{}}, false);
      // data entry
      int vs = S->sy.of(F.getArg(4));
      auto lin = [&](long a, long c, int k) { Want w{Want::Linear, {}}; w.l.ok = true; w.l.t[vs] = a; w.l.c = c; w.l.k = k; return w; };
      auto at = [&](unsigned c, unsigned lo, unsigned hi) { In in = base(c); in.cells.insert_or_assign("registeredParam", CR(APInt(16, lo), APInt(16, hi + 1))); return in; };
      expect(*S, "data:bend range", "data entry for the pitch bend range", at(6, 0, 0), {{"pitchBendSensitivity", lin(100, 0, 0)}, {"channelFlags", keepFlags}}, {{}});
      expect(*S, "data:fine tuning", "data entry for fine tuning", at(6, 1, 1), {{"finePitch", lin(12800, -819200, 13)}, {"channelFlags", keepFlags}}, {{}});
      expect(*S, "data:coarse tuning", "data entry for coarse tuning", at(6, 2, 2), {{"coarsePitch", lin(1, -64, 0)}, {"channelFlags", keepFlags}}, {{}});
      expect(*S, "data:other", "data entry for another parameter", at(6, 3, 0x3fff), {{"channelFlags", keepFlags}}, {{}}, false);
    }
    // sustain pedal: off below 64, on from 64; each value of the flags the code can tell apart
    for (unsigned on = 0; on < 2; on++)
      for (unsigned f = 0; f < 256; f++) {
        In in = base(64, on ? 64 : 0, on ? 127 : 63);
        CR fr = range8(f, f);
        in.cells.insert_or_assign("channelFlags", fr);
        bool was = f & SUSTAIN;
        std::vector<std::vector<Call>> ev;
        Call rel{"VMReleaseAllDeferredNoteOffs", {ch}}, cat{"VMCatchNotesForSustainPedal", {ch}};
        if (on) { ev.push_back({cat}); if (was) ev.push_back({}); }
        else { ev.push_back({rel}); if (!was) ev.push_back({}); }
        expect(*S, "controller:sustain", std::string("controller 64 (sustain pedal) ") + (on ? "pressed" : "released") + (was ? " while pressed" : " while not pressed"), in,
               {{"channelFlags", flags(Bits::num(8, f), on ? SUSTAIN : 0, on ? 0 : SUSTAIN)}}, ev, false);
        // reset all controllers also lifts the pedal
        if (!on) {
          In r = base(121);
          r.cells.insert_or_assign("channelFlags", fr);
          std::map<std::string, Want> w{{"modWheel", is(Bits::num(8, 0))}, {"expression", is(Bits::num(8, 127))}, {"pitchBend", is(Bits::num(16, 0x2000))}, {"channelPressure", is(Bits::num(8, 0))},
                                        {"registeredParam", is(Bits::num(16, 0x3fff))}, {"pitchBendSensitivity", is(Bits::num(16, 200))}, {"finePitch", is(Bits::num(8, 0))}, {"coarsePitch", is(Bits::num(8, 0))},
                                        {"channelFlags", flags(Bits::num(8, f), 0, SUSTAIN)}};
          expect(*S, "controller:reset", std::string("controller 121 (reset all controllers) while the pedal is ") + (was ? "pressed" : "not pressed"), r, w, ev);
        }
      }
    for (unsigned c : {120u, 123u, 124u, 125u, 126u, 127u})
      expect(*S, "controller:notes off", "controller " + std::to_string(c) + " (all notes off)", base(c), {{"channelFlags", keepFlags}}, {{{"VMAllNotesOff", {ch}}}}, false);
    // all others
    std::set<unsigned> done{0, 1, 6, 7, 10, 11, 32, 64, 98, 99, 100, 101, 120, 121, 123, 124, 125, 126, 127};
    bool rev = S->ph.count("reverbSend"), cho = S->ph.count("chorusSend");
    if (rev) value(91, "reverb send", "reverbSend"), done.insert(91);
    if (cho) value(93, "chorus send", "chorusSend"), done.insert(93);
    for (unsigned a = 0; a < 128;) {
      unsigned b = a;
      if (done.count(a)) { a++; continue; }
      while (b + 1 < 128 && !done.count(b + 1)) b++;
      In in = base(a);
      in.args.insert_or_assign(3, range8(a, b));
      expect(*S, "controller:other", "controllers " + std::to_string(a) + ".." + std::to_string(b), in, {{"channelFlags", keepFlags}}, {{}}, false);
      a = b + 1;
    }
  }
  void program() {
    auto S = sim("VMProgramChange", 1, 2, 4);
    if (!S) return;
    CR pr = range8(0, 127);
    for (int k = 0; k < 3; k++) { // rhythm bank, melody bank, another
      for (auto rg : k == 0 ? std::vector<std::pair<unsigned, unsigned>>{{0x7800, 0x78ff}} : k == 1 ? std::vector<std::pair<unsigned, unsigned>>{{0x7900, 0x79ff}} : std::vector<std::pair<unsigned, unsigned>>{{0, 0x77ff}, {0x7a00, 0x7bff}, {0x7c00, 0x7fff}}) {
        In in;
        in.args.insert_or_assign(2, range8(0, 15));
        in.args.insert_or_assign(3, pr);
        CR b = CR(APInt(16, rg.first), APInt(16, rg.second + 1));
        in.cells.insert_or_assign("bankNum", b);
        Want f = flags(S->sym("channelFlags"), k == 0 ? RHYTHM : 0, k == 1 ? RHYTHM : 0);
        f.mask &= ~0x10;
        expect(*S, "program", std::string("a program change in ") + (k == 0 ? "a rhythm bank" : k == 1 ? "a melody bank" : "another bank"), in,
               {{"programNum", is(S->arg(3, &pr))}, {"regionIndex", Want{Want::Any, {}}}, {"channelFlags", f}}, {});
      }
    }
  }
};

// ---- who feeds the decoder, and in which mode ---------------------------------------------
void modes(Ctx &C, Report &R) {
  Program &P = C.P;
  CG cg(P);
  auto *dec = P.M->getFunction("EAS_ParseMIDIStream");
  if (!dec) { R.broken.push_back("the MIDI byte decoder (EAS_ParseMIDIStream) is not there"); return; }
  std::map<std::string, uint64_t> want{{"EAS_Render", PLAY}, {"EAS_WriteMIDIStream", PLAY}, {"EAS_Locate", LOCATE}, {"EAS_ParseMetaData", META}};
  long chains = 0, entries = 0;
  // what begins a sound
  auto starter = [&](const Function *F) { auto n = F->getName(); return n == "VMStartNote" || n == "VMStartVoice" || n == "VMStealVoice"; };
  for (auto &root : C.roots) {
    auto *F = P.M->getFunction(root);
    if (!F || F->isDeclaration()) continue;
    entries++;
    std::map<CG::Node, std::pair<CG::Node, const CallBase *>> from;
    std::vector<CG::Node> w{{F, {}}};
    std::set<CG::Node> seen{w[0]};
    auto path = [&](CG::Node n) {
      std::vector<std::string> p;
      for (unsigned i = 0; i < 60; i++) {
        auto it = from.find(n);
        if (it == from.end()) break;
        p.insert(p.begin(), loc(it->second.second) + " calls " + n.first->getName().str());
        n = it->second.first;
      }
      p.insert(p.begin(), "entry point " + F->getName().str());
      return p;
    };
    for (size_t i = 0; i < w.size(); i++) {
      auto n = w[i];
      if (n.first == dec) {
        chains++;
        std::optional<uint64_t> mode;
        for (auto &a : n.second) if (a.first == 4) mode = a.second;
        auto it = want.find(root);
        auto *at = from.count(n) ? from[n].second : nullptr;
        std::string l = at ? loc(at) : locF(F);
        if (!mode) R.add("mode:" + root, l, root + " feeds the MIDI decoder in a mode that is not fixed", path(n));
        else if (it == want.end() ? *mode == PLAY : *mode != it->second)
          R.add("mode:" + root, l, root + " feeds the MIDI decoder as if " + (*mode < 4 ? modeName[*mode] : "in an unknown mode"), path(n));
        else R.note("feeds", root + " -> " + modeName[*mode] + " at " + l);
      }
      bool may = root == "EAS_Render" || root == "EAS_WriteMIDIStream";
      if (!may && starter(n.first)) R.add("start:" + root, locF(n.first), root + " can begin a note", path(n));
      auto es = cg.edges(n);
      for (auto &e : es) if (seen.insert(e.node).second) { from[e.node] = {n, e.at}; w.push_back(e.node); }
    }
  }
  R.stats["decoder_chains"] = chains;
  R.stats["entry_points"] = entries;
}

// EAS_WriteMIDIStream hands every byte of the buffer to the decoder, once and in order
void feed(Program &P, Report &R) {
  auto *F = const_cast<Function *>(P.M->getFunction("EAS_WriteMIDIStream"));
  if (!F || F->arg_size() != 4) { R.broken.push_back("EAS_WriteMIDIStream is not there"); return; }
  DominatorTree DT(*F);
  LoopInfo LI(DT);
  AssumptionCache AC(*F);
  TargetLibraryInfoImpl TI((Triple(P.M->getTargetTriple())));
  TargetLibraryInfo TLI(TI);
  ScalarEvolution SE(*F, TLI, AC, DT, LI);
  const CallBase *call = nullptr;
  for (Instruction &I : instructions(*F))
    if (auto *Cl = dyn_cast<CallBase>(&I); Cl && calleeName(Cl) == "EAS_ParseMIDIStream") {
      if (call) { R.add("feed", loc(Cl), "the bytes of the buffer are handed to the decoder in more than one place"); return; }
      call = Cl;
    }
  if (!call) { R.add("feed", locF(F), "the bytes of the buffer are not handed to the decoder"); return; }
  auto *L = LI.getLoopFor(call->getParent());
  auto *B = call->getArgOperand(3);
  auto *Ld = dyn_cast<LoadInst>(B);
  if (!L) { R.add("feed", loc(call), "only one byte of the buffer is handed to the decoder"); return; }
  if (!Ld) { R.add("feed", loc(call), "the decoder is not given a byte of the buffer"); return; }
  auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(const_cast<Value *>(Ld->getPointerOperand())));
  auto *buf = SE.getSCEV(F->getArg(2));
  if (!AR || AR->getLoop() != L || AR->getStart() != buf || !AR->getStepRecurrence(SE)->isOne()) { R.add("feed", loc(call), "the decoder is not given the bytes of the buffer from the first on, one after the other"); return; }
  // the loop is left after count rounds (or when the decoder reports an error)
  SmallVector<BasicBlock *, 4> ex;
  L->getExitingBlocks(ex);
  bool ok = false;
  auto *cnt = SE.getSCEV(F->getArg(3));
  for (auto *b : ex) {
    auto *n = SE.getExitCount(L, b);
    if (isa<SCEVCouldNotCompute>(n)) continue;
    bool before = b != call->getParent() && DT.dominates(b, call->getParent());
    auto *t = SE.getTruncateOrZeroExtend(n, cnt->getType());
    auto *w = before ? cnt : SE.getMinusSCEV(cnt, SE.getOne(cnt->getType()));
    auto isCount = [&](const SCEV *x) {
      if (x == w) return true;
      if (x == SE.getAddExpr(SE.getUMaxExpr(cnt, SE.getOne(cnt->getType())), SE.getMinusOne(cnt->getType())) && !before) return true;
      if (auto *M = dyn_cast<SCEVSMaxExpr>(x)) for (auto *o : M->operands()) if (o == w) return true;
      if (auto *D = SE.getMinusSCEV(x, w); D->isZero()) return true;
      return false;
    };
    ok |= isCount(t);
    if (getenv("DBG")) { errs() << "exit " << *n << " want " << *w << "\n"; }
  }
  if (!ok) { R.add("feed", loc(call), "the number of bytes handed to the decoder is not the number of bytes of the buffer"); return; }
  R.stats["feeds"]++;
}

void channel(Ctx &C, Report &R) {
  Channel M(C, R);
  M.run();
  R.stats["comparisons"] = M.checks;
}
void midi(Ctx &C, Report &R) {
  Midi M(C, R);
  M.decoder();
  feed(C.P, R);
  R.stats["comparisons"] = M.checks;
}
NormOpts mopts() {
  NormOpts o;
  o.into = {"EAS_ParseMIDIStream", "VMControlChange", "VMChannelPressure", "VMPitchBend", "VMProgramChange"};
  o.keep = {"VMStartNote", "VMStopNote", "VMControlChange", "VMChannelPressure", "VMPitchBend", "VMProgramChange", "VMReset", "VMInitMIPTable", "VMSetVolume", "VMSetMIPEntry", "VMUpdateMIPTable",
            "VMReleaseAllDeferredNoteOffs", "VMCatchNotesForSustainPedal", "VMAllNotesOff", "VMResetControllers", "VMFindProgram", "VMFindDLSProgram"};
  return o;
}
Reg reg("midi", midi, mopts());
Reg reg3("modes", modes, NormOpts());
Reg reg2("channel", channel, mopts());
} // namespace
