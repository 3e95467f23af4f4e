// Zygote: forks one child per run, collects verdicts, checks determinism, minimises, writes replay files.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_set>
#include "core.h"
#include "gen_spec.h"
#include "ops.h"
#include "sqlgen.h"

using namespace sim;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static int hang_s = 20;
static bool verbose_child = false;

struct Result {
  bool ok = false, viol = false, infra = false;
  std::string cls, msg;
  uint64_t hash = 0, events = 0, points = 0, switches = 0, sched_hash = 0, ops = 0;
  std::vector<Switch> rec;
  bool rec_full = false;
};
static void shm_reset() {
  memset(shm, 0, offsetof(Shm, prof));
  shm->nrec = 0;
  shm->outlen = 0;
  shm->hash = 1469598103934665603ULL;
  shm->sched_hash = 1469598103934665603ULL;
}
static uint64_t forks = 0;
static Result in_child(const std::function<void()>& f) {
  shm_reset();
  forks++;
  fflush(stdout);
  pid_t p = _Fork();  // without the sanitizer's atfork handlers, which cost more than the run
  if (p < 0) {
    perror("fork");
    exit(3);
  }
  if (p == 0) {
    if (!verbose_child) {
      int fd = open("/dev/null", O_RDWR);
      dup2(fd, 2);
      close(fd);
    }
    core_limit(hang_s);
    f();
    core_exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  Result r;
  r.hash = shm->hash;
  r.events = shm->events;
  r.points = shm->steps_total;
  r.switches = shm->switches;
  r.sched_hash = shm->sched_hash;
  r.ops = shm->ops_total;
  r.rec.assign(shm->rec, shm->rec + shm->nrec);
  r.rec_full = shm->nrec >= MAXREC;
  if (shm->verdict == 2) {
    r.cls = std::string(shm->cls, strnlen(shm->cls, sizeof shm->cls));
    r.msg = std::string(shm->msg, strnlen(shm->msg, sizeof shm->msg));
    r.viol = true;
    if (r.cls.compare(0, 10, "simulator:") == 0) r.infra = true, r.viol = false;
    return r;
  }
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    r.viol = true;
    if (s == SIGKILL) {
      r.viol = false;
      r.infra = true;
      r.cls = "simulator:killed";
    } else if (s == SIGPROF || s == SIGALRM || s == SIGXCPU) {
      r.cls = "hang";
      r.msg = "the run did not end";
    } else {
      r.cls = "crash:signal-" + std::to_string(s);
      r.msg = strsignal(s);
    }
    return r;
  }
  int c = WEXITSTATUS(st);
  if (c == 0 && shm->verdict == 1) {
    r.ok = true;
    return r;
  }
  r.viol = true;
  if (c == 99) {
    r.cls = "memory:report";
    r.msg = "the address sanitizer ended the run";
  } else {
    r.cls = "process-exit";
    r.msg = "the process ended with status " + std::to_string(c) + " in the middle of the run";
  }
  return r;
}

// ---------------------------------------------------------------- baselines
struct Counts {
  uint64_t baselines = 0, base_failed = 0, skipped = 0;
  std::map<std::string, uint64_t> base_cls;
  std::string base_sample;
} counts;
static const Baseline* get_base(const std::string& t, bool tk) {
  Baseline& b = g_base[t];
  if (!tk) {
    if (b.done) return &b;
    if (!b.cls.empty()) return nullptr;
    counts.baselines++;
    Result r = in_child([&] { child_baseline(t, false); });
    if (r.ok) {
      Baseline x;
      unpack(std::string(shm->out, shm->outlen), x);
      x.done = true;
      x.tdone = b.tdone;
      x.tret = b.tret;
      x.tokens = b.tokens;
      x.tsteps = b.tsteps;
      x.tallocs = b.tallocs;
      x.tprof = b.tprof;
      x.tblk = b.tblk;
      x.tcls = b.tcls;
      x.tmsg = b.tmsg;
      b = x;
      return &b;
    }
    b.cls = r.cls;
    b.msg = r.msg;
  } else {
    if (b.tdone) return &b;
    if (!b.tcls.empty()) return nullptr;
    counts.baselines++;
    Result r = in_child([&] { child_baseline(t, true); });
    if (r.ok) {
      Baseline x;
      unpack(std::string(shm->out, shm->outlen), x);
      b.tdone = true;
      b.tret = x.tret;
      b.tokens = x.tokens;
      b.tsteps = x.tsteps;
      b.tallocs = x.tallocs;
      b.tprof = x.tprof;
      b.tblk = x.tblk;
      return &b;
    }
    b.tcls = r.cls;
    b.tmsg = r.msg;
  }
  counts.base_failed++;
  const std::string& c = tk ? b.tcls : b.cls;
  counts.base_cls[c]++;
  if (counts.base_sample.empty()) counts.base_sample = c + ": " + (tk ? b.tmsg : b.msg).substr(0, 300) + " for " + esc(t).substr(0, 300);
  return nullptr;
}
// Oracles that judge a run without the outcome of the texts alone.

static bool prepare(const Spec& s) {  // false: a text of it cannot be processed even alone
  bool ok = true;
  for (size_t i = 0; i < s.texts.size(); i++) {
    if (needs_parse(s, (int)i) && !get_base(s.texts[i], false)) ok = false;
    if (needs_tok(s, (int)i) && !get_base(s.texts[i], true)) ok = false;
  }
  return ok;
}
// A text that cannot even be processed alone breaks the properties that speak about every call: shown by that call alone.
static bool alone(const Spec& s, Result& r) {
  static const std::set<std::string> props = {"C01", "C02", "C05", "C08", "C09", "C10", "C11", "C12"};
  if (!props.count(s.prop)) return false;
  for (size_t i = 0; i < s.texts.size(); i++)
    for (int tk = 0; tk < 2; tk++) {
      const std::string& t = s.texts[i];
      if (!(tk ? needs_tok(s, (int)i) : needs_parse(s, (int)i)) || get_base(t, tk)) continue;
      const std::string& c = tk ? g_base[t].tcls : g_base[t].cls;
      if (c.compare(0, 10, "simulator:") == 0 || (c.compare(0, 5, "steps") == 0 && s.prop != "C01")) continue;
      r = in_child([&] { child_baseline(t, tk); });
      if (!r.viol) continue;
      r.cls = "alone:" + r.cls;
      r.msg = std::string(tk ? "tokenize" : "parse, inspect, print and reset") + " of text " + std::to_string(i) + " " + esc(t).substr(0, 300) + " alone: " + r.msg;
      return true;
    }
  return false;
}
static Result run_spec(const Spec& s) {
  if (!baseless(s)) {
    if (!prepare(s)) {
      Result a;
      if (alone(s, a)) return a;
      // C14 speaks about every call: let the run itself show it.
      if (s.prop != "C14") {
        counts.skipped++;
        Result r;
        r.ok = true;
        r.cls = "skipped";
        return r;
      }
    }
  }
  return in_child([&] { child_run(s); });
}

// ---------------------------------------------------------------- minimiser
static double shrink_until;
static uint64_t shrink_runs;
struct Shrink {
  Spec best;
  std::string cls;
  bool test(const Spec& s) {
    if (now() > shrink_until) return false;
    shrink_runs++;
    Result r = run_spec(s);
    if (r.viol && r.cls == cls) {
      best = s;
      return true;
    }
    return false;
  }
  template <class T>
  void list(const std::function<std::vector<T>&(Spec&)>& at) {
    size_t chunk = at(best).size();
    while (chunk >= 1) {
      bool any = false;
      for (size_t i = 0; i < at(best).size();) {
        Spec s = best;
        auto& v = at(s);
        size_t n = std::min(chunk, v.size() - i);
        v.erase(v.begin() + (long)i, v.begin() + (long)(i + n));
        if (test(s))
          any = true;
        else
          i += n;
        if (now() > shrink_until) return;
      }
      if (chunk == 1 && !any) break;
      if (chunk > 1) chunk /= 2;
    }
  }
  void drop_ops() {
    for (size_t p = 0; p < best.phases.size(); p++)
      for (size_t a = 0; a < best.phases[p].actors.size(); a++) {
        size_t chunk = best.phases[p].actors[a].ops.size();
        while (chunk >= 1) {
          bool any = false;
          for (size_t i = 0; i < best.phases[p].actors[a].ops.size();) {
            Spec s = best;
            auto& v = s.phases[p].actors[a].ops;
            size_t n = std::min(chunk, v.size() - i);
            v.erase(v.begin() + (long)i, v.begin() + (long)(i + n));
            int id = s.phases[p].actors[a].id;
            std::vector<Switch> sw;
            for (auto w : s.switches) {
              if (w.phase == (int)p && w.actor == id) {
                if (w.op >= (int)i && w.op < (int)(i + n)) continue;
                if (w.op >= (int)(i + n)) w.op -= (int)n;
              }
              sw.push_back(w);
            }
            s.switches = sw;
            if (test(s))
              any = true;
            else
              i += n;
            if (now() > shrink_until) return;
          }
          if (chunk == 1 && !any) break;
          if (chunk > 1) chunk /= 2;
        }
      }
  }
  void drop_actors() {
    for (size_t p = 0; p < best.phases.size(); p++)
      for (size_t a = 0; a < best.phases[p].actors.size();) {
        Spec s = best;
        int id = s.phases[p].actors[a].id;
        s.phases[p].actors.erase(s.phases[p].actors.begin() + (long)a);
        std::vector<Switch> sw;
        for (auto& w : s.switches)
          if (!(w.phase == (int)p && w.actor == id)) sw.push_back(w);
        s.switches = sw;
        if (!test(s)) a++;
      }
    for (size_t p = 0; p < best.phases.size();) {
      Spec s = best;
      s.phases.erase(s.phases.begin() + (long)p);
      std::vector<Switch> sw;
      for (auto w : s.switches) {
        if (w.phase == (int)p) continue;
        if (w.phase > (int)p) w.phase--;
        sw.push_back(w);
      }
      s.switches = sw;
      if (!test(s)) p++;
    }
  }
  void simplify_ops() {
    for (size_t p = 0; p < best.phases.size(); p++)
      for (size_t a = 0; a < best.phases[p].actors.size(); a++)
        for (size_t i = 0; i < best.phases[p].actors[a].ops.size(); i++) {
          auto at = [&](Spec& s) -> Op& { return s.phases[p].actors[a].ops[i]; };
          auto tryset = [&](const std::function<bool(Op&)>& f) {
            Spec s = best;
            if (f(at(s))) test(s);
          };
          tryset([](Op& o) { return o.err >= 0 ? (o.err = -1, true) : false; });
          tryset([](Op& o) { return o.locale ? (o.locale = 0, true) : false; });
          tryset([](Op& o) { return o.stack ? (o.stack = 0, true) : false; });
          tryset([](Op& o) { return o.sink ? (o.sink = o.sinkn = 0, true) : false; });
          tryset([](Op& o) { return o.buf ? (o.buf = 0, true) : false; });
          tryset([](Op& o) { return o.out ? (o.out = o.outn = 0, true) : false; });
          tryset([](Op& o) { return o.api && o.kind != OP_FLOOD ? (o.api = 0, true) : false; });
          if (at(best).kind == OP_FLOOD)
            for (int step = at(best).arg / 2; step >= 1; step /= 2) tryset([&](Op& o) { return o.arg > step ? (o.arg -= step, true) : false; });
          while (!at(best).af.empty()) {
            Spec s = best;
            at(s).af.pop_back();
            if (!test(s)) break;
          }
          for (size_t k = 0; k + 1 < at(best).af.size();) {
            Spec s = best;
            at(s).af.erase(at(s).af.begin() + (long)k);
            if (!test(s)) k++;
          }
          if (now() > shrink_until) return;
        }
  }
  void texts() {
    if (!best.oargs.empty()) return;
    for (size_t t = 0; t < best.texts.size(); t++) {
      bool used = needs_parse(best, (int)t) || needs_tok(best, (int)t);
      if (!used) continue;
      size_t chunk = best.texts[t].size() / 2 + 1;
      while (chunk >= 1) {
        bool any = false;
        for (size_t i = 0; i < best.texts[t].size();) {
          Spec s = best;
          size_t n = std::min(chunk, s.texts[t].size() - i);
          s.texts[t].erase(i, n);
          if (test(s))
            any = true;
          else
            i += n;
          if (now() > shrink_until) return;
        }
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk = (chunk + 1) / 2;
      }
    }
  }
  void compact_texts() {
    Spec s = best;
    std::vector<int> map(s.texts.size(), -1);
    std::vector<std::string> nt;
    auto flooded = [&](size_t t) {
      for (auto& p : s.phases)
        for (auto& a : p.actors)
          for (auto& o : a.ops)
            if (o.kind == OP_FLOOD && o.text == (int)t) return true;
      return false;
    };
    for (size_t i = 0; i < s.texts.size(); i++)
      if (flooded(i) || needs_parse(s, (int)i) || needs_tok(s, (int)i) || std::find(s.oargs.begin(), s.oargs.end(), (int64_t)i) != s.oargs.end()) {
        map[i] = (int)nt.size();
        nt.push_back(s.texts[i]);
      }
    for (auto& p : s.phases)
      for (auto& a : p.actors)
        for (auto& o : a.ops) o.text = map[o.text] >= 0 ? map[o.text] : 0;
    for (auto& v : s.oargs) v = map[v];
    s.texts = nt;
    test(s);
  }
  void go() {
    if (best.sched != 0) {
      Result r = run_spec(best);
      if (r.viol && r.cls == cls && !r.rec_full) {
        Spec s = best;
        s.sched = s.q = 0;
        s.sseed = 0;
        s.switches = r.rec;
        test(s);
      }
    }
    for (int pass = 0; pass < 3 && now() < shrink_until; pass++) {
      std::string before = spec_write(best);
      drop_actors();
      drop_ops();
      if (best.sched == 0) list<Switch>([](Spec& s) -> std::vector<Switch>& { return s.switches; });
      simplify_ops();
      for (int bit = 1; bit < 128; bit *= 2)
        if (best.host & bit) {
          Spec s = best;
          s.host &= ~bit;
          test(s);
        }
      if (best.locale) {
        Spec s = best;
        s.locale = 0;
        test(s);
      }
      if (best.place) {
        Spec s = best;
        s.place = 0;
        test(s);
      }
      if (best.heap && best.sched == 0) {
        Spec s = best;
        s.heap = 0;
        test(s);
      }
      if (best.fill) {
        Spec s = best;
        s.fill = 0;
        test(s);
      }
      if (best.rounds > 1 && cls != "leak") {
        Spec s = best;
        s.rounds = 1;
        test(s);
      }
      texts();
      if (spec_write(best) == before) break;
    }
    compact_texts();
  }
};

// ---------------------------------------------------------------- modes
static std::string jesc(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}
static int mode_run(std::map<std::string, std::string>& a) {
  std::string prop = a["prop"];
  uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10), from = strtoull(a["from"].c_str(), nullptr, 10), step = strtoull(a["step"].c_str(), nullptr, 10),
           count = strtoull(a["count"].c_str(), nullptr, 10);
  double limit = atof(a["time"].c_str()), shrink = a.count("shrink") ? atof(a["shrink"].c_str()) : 20;
  uint64_t skip_until = a.count("start") ? strtoull(a["start"].c_str(), nullptr, 10) : 0;
  bool thorough = a["tier"] == "thorough";
  double t0 = now();
  uint64_t runs = 0, ok = 0, steps = 0, ops = 0, events = 0, switches = 0, indices = 0, dblchecked = 0, dblmismatch = 0, nrepro = 0, nondet = 0, infra = 0, slow = 0;
  uint64_t fired_sum[F_N] = {0};
  std::unordered_set<uint64_t> specs, scheds, hashes;
  std::vector<std::string> samples;
  bool capped = false, found = false;
  uint64_t i = from;
  std::string infra_msg, nondet_msg;
  std::set<std::string> ignore;  // classes of known findings are filtered by the driver
  if (!step) step = 1;
  for (uint64_t n = 0; n < count && !found; n++, i = from + n * step) {
    if (i < skip_until) continue;
    if (now() - t0 > limit) {
      capped = true;
      break;
    }
    auto v = gen_specs(prop, seed, i, thorough, get_base);
    indices++;
    for (size_t k = 0; k < v.size(); k++) {
      if (now() - t0 > limit) {
        capped = true;
        break;
      }
      const Spec& s = v[k];
      Result r = run_spec(s);
      if (r.cls == "skipped") continue;
      runs++;
      steps += r.points;
      ops += r.ops;
      events += r.events;
      switches += r.switches;
      for (int j = 0; j < F_N; j++) fired_sum[j] += shm->fired[j];
      specs.insert(fnv(spec_write(s)));
      scheds.insert(r.sched_hash);
      hashes.insert(r.hash);
      if (samples.size() < 2 && (runs == 1 || (s.switches.size() + s.phases[0].actors[0].ops.size() > 2 && runs > 5))) samples.push_back(spec_write(s));
      if (r.infra) {
        infra++;
        infra_msg = r.cls + " " + r.msg;
        continue;
      }
      if (r.ok) {
        ok++;
        if (runs % 64 == 1) {
          dblchecked++;
          Result q = run_spec(s);
          if (q.hash != r.hash || !q.ok) {
            dblmismatch++;
            nondet_msg = "run twice: hashes differ " + spec_write(s).substr(0, 400);
          }
        }
        continue;
      }
      // a violation: the same again?
      // (a run that was only slow gets three times as long)
      const int usual = hang_s;
      if (r.cls == "hang") hang_s *= 3;
      Result q = run_spec(s);
      hang_s = usual;
      if (r.cls == "hang" && q.ok) {
        slow++;
        ok++;
        continue;
      }
      if (!q.viol || q.cls != r.cls || q.hash != r.hash) {
        nondet++;
        nondet_msg = r.cls + " did not repeat (" + q.cls + ")";
        if (nondet > 20) found = true;
        continue;
      }
      nrepro++;
      Shrink sh;
      sh.best = s;
      sh.cls = r.cls;
      shrink_until = now() + shrink;
      sh.go();
      if (r.cls == "hang") hang_s *= 3;
      Result fin = run_spec(sh.best), fin2 = r.cls == "hang" ? fin : run_spec(sh.best);
      hang_s = usual;
      if (!fin.viol || fin.cls != r.cls || fin2.hash != fin.hash) {
        sh.best = s;
        fin = r;
      }
      std::string dir = a["out"], path = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + "-" + std::to_string(k) + ".replay";
      std::ofstream f(path);
      std::istringstream in(spec_write(sh.best));
      std::string line;
      std::getline(in, line);
      f << line << "\n# violation " << fin.cls << "\n";
      std::istringstream ml(fin.msg);
      for (int c = 0; c < 40 && std::getline(ml, line);) {
        f << "# " << line << "\n";
        c++;
      }
      f << "# found with seed " << seed << " index " << i << "." << k << ", minimised in " << shrink_runs << " runs; hash " << fin.hash << "\n";
      while (std::getline(in, line)) f << line << "\n";
      f.close();
      std::string m1 = fin.msg.substr(0, 1200);
      printf("VIOL {\"class\":%s,\"path\":%s,\"message\":%s,\"index\":%llu,\"hash\":\"%llu\"}\n", jesc(fin.cls).c_str(), jesc(path).c_str(), jesc(m1).c_str(), (unsigned long long)i, (unsigned long long)fin.hash);
      fflush(stdout);
      if (a["all"] != "1") found = true;
      break;
    }
    if (g_base.size() > 4000) g_base.clear();
  }
  uint64_t edges = 0, tot = core_edges();
  std::string emap;
  for (uint32_t j = 1; j <= tot && j < MAXEDGE; j++) {
    edges += shm->edge[j];
    emap += shm->edge[j] ? '1' : '0';
  }
  printf("SUM {\"runs\":%llu,\"ok\":%llu,\"indices\":%llu,\"next\":%llu,\"capped\":%d,\"steps\":%llu,\"ops\":%llu,\"events\":%llu,\"switches\":%llu,\"distinct_specs\":%zu,\"distinct_schedules\":%zu,"
         "\"distinct_histories\":%zu,\"edges\":%llu,\"edges_total\":%llu,\"double_checked\":%llu,\"double_mismatch\":%llu,\"violations\":%llu,\"nondeterministic\":%llu,\"infra\":%llu,\"slow\":%llu,\"baselines\":%llu,"
         "\"baseline_failed\":%llu,\"skipped\":%llu,\"forks\":%llu,\"wall\":%.2f,\"note\":%s,",
         (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)indices, (unsigned long long)i, (int)capped, (unsigned long long)steps, (unsigned long long)ops, (unsigned long long)events,
         (unsigned long long)switches, specs.size(), scheds.size(), hashes.size(), (unsigned long long)edges, (unsigned long long)tot, (unsigned long long)dblchecked, (unsigned long long)dblmismatch,
         (unsigned long long)nrepro, (unsigned long long)nondet, (unsigned long long)infra, (unsigned long long)slow, (unsigned long long)counts.baselines, (unsigned long long)counts.base_failed, (unsigned long long)counts.skipped,
         (unsigned long long)forks, now() - t0, jesc(infra_msg + nondet_msg + counts.base_sample).c_str());
  printf("\"fired\":{");
  bool first = true;
  for (int j = 0; j < F_N; j++)
    if (fired_sum[j]) {
      printf("%s\"%s\":%llu", first ? "" : ",", kFiredName[j], (unsigned long long)fired_sum[j]);
      first = false;
    }
  printf("},\"samples\":[");
  for (size_t j = 0; j < samples.size(); j++) printf("%s%s", j ? "," : "", jesc(samples[j].substr(0, 3000)).c_str());
  printf("],\"edge_map\":\"%s\"}\n", emap.c_str());
  fflush(stdout);
  return 0;
}
static int mode_replay(std::map<std::string, std::string>& a) {
  std::ifstream f(a["file"]);
  std::stringstream ss;
  ss << f.rdbuf();
  Spec s;
  std::string extra;
  if (!f || !spec_read(ss.str(), s, extra)) {
    printf("cannot read the replay file\n");
    return 3;
  }
  if (a["trace"] == "1") {
    dup2(1, 3);
    prepare(s);
    g_trace = true;
    verbose_child = true;
  }
  Result r = run_spec(s);
  if (r.viol) {
    printf("REPLAY class=%s hash=%llu\n%s\n", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    return 1;
  }
  printf("REPLAY %s %s\n%s\n", r.infra ? "infrastructure" : "ok", r.cls.c_str(), counts.base_sample.c_str());
  return r.infra ? 3 : 0;
}
static int mode_gen(std::map<std::string, std::string>& a) {
  auto v = gen_specs(a["prop"], strtoull(a["seed"].c_str(), nullptr, 10), strtoull(a["from"].c_str(), nullptr, 10), a["tier"] == "thorough", get_base);
  size_t k = a.count("k") ? (size_t)atoi(a["k"].c_str()) : 0;
  if (k < v.size()) fputs(spec_write(v[k]).c_str(), stdout);
  return 0;
}
// outcome of one text, for people
static int mode_text(std::map<std::string, std::string>& a) {
  auto* b = get_base(a["text"], false);
  auto* t = get_base(a["text"], true);
  if (!b) {
    auto& x = g_base[a["text"]];
    printf("parse fails: %s\n%s\n", x.cls.c_str(), x.msg.c_str());
  } else {
    printf("ret %d valid %d err %s at %d:%d steps %llu allocs %d static accesses %zu params %s\n", b->ret, b->valid, b->err.c_str(), b->line, b->col, (unsigned long long)b->psteps, b->pallocs, b->pprof.size(), b->params.c_str());
    for (size_t i = 0; i < b->stmts.size(); i++) printf("%s\n%s\n", b->stmts[i].c_str(), i < b->prints.size() ? b->prints[i].c_str() : "");
  }
  if (t) printf("tokenize %d: %zu tokens steps %llu allocs %d\n", t->tret, t->tokens.size(), (unsigned long long)t->tsteps, t->tallocs);
  return 0;
}

int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SQLSIM_REEXEC")) {
    setenv("SQLSIM_REEXEC", "1", 1);
    if (personality((unsigned)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  unsetenv("SQLSIM_REEXEC");
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; i++) {
    std::string s = argv[i];
    if (s.compare(0, 2, "--") == 0) {
      auto p = s.find('=');
      a[s.substr(2, p - 2)] = p == std::string::npos ? "1" : s.substr(p + 1);
    }
  }
  if (a.count("cpu")) {
    cpu_set_t c;
    CPU_ZERO(&c);
    CPU_SET(atoi(a["cpu"].c_str()), &c);
    sched_setaffinity(0, sizeof c, &c);
  }
  if (a.count("hang")) hang_s = atoi(a["hang"].c_str());
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return 3;
  shm = (Shm*)m;
  shm_reset();
  core_init();
  locales_init(a["loc"]);
  load_corpus(a["corpus"]);
  if (mode == "run") return mode_run(a);
  if (mode == "replay") return mode_replay(a);
  if (mode == "gen") return mode_gen(a);
  if (mode == "text") return mode_text(a);
  if (mode == "forktest") {
    auto t = [](const char* n, const std::function<void()>& f) {
      double t0 = now();
      for (int i = 0; i < 100; i++) in_child(f);
      printf("%s %.3f ms\n", n, (now() - t0) * 10);
    };
    t("empty", [] {});
    t("init", [] { core_child_init(); });
    t("thread", [] {
      core_child_init();
      Spec s;
      s.phases.resize(1);
      s.phases[0].actors.resize(1);
      s.phases[0].actors[0].ops.resize(1);
      sched_begin(s);
      sched_phase(s, 0, [](int, int, const Op&) {});
      sched_end();
    });
    t("base", [] { child_baseline("SELECT a, b FROM t", false); });
    return 0;
  }
  fprintf(stderr, "usage: sqlsim run|replay|gen|text --...\n");
  return 3;
}
