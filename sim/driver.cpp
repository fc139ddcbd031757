// Seeded search, minimisation and replay. See rt.h and DESIGN.md.
#include "rt.h"

#include <algorithm>
#include <chrono>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace rt;

namespace
{
    struct Shared
    {
        volatile uint64_t index;     // run being executed
        volatile uint64_t progress;
        uint64_t runs, steps, switches, midop, ops, heapreq, fired[F_NUM];
        uint64_t perScen[128];
        volatile int done;
        Result res;
        ProbeTable probes;
    };

    double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    uint64_t mix64(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

    std::vector<const ScenarioDef*> g_order; // weighted rotation
    std::vector<const ScenarioDef*> g_defs;
    uint64_t g_seed = 1; std::string g_prop;

    void build_order(const std::string& only)
    {
        g_defs.clear(); g_order.clear();
        int maxw = 1;
        for (auto& d : registry()) if (d.property == g_prop && (only.empty() || d.name == only)) { g_defs.push_back(&d); maxw = std::max(maxw, d.weight); }
        std::sort(g_defs.begin(), g_defs.end(), [](auto* a, auto* b) { return a->name < b->name; });
        for (int w = 0; w < maxw; w++) for (auto* d : g_defs) if (w < d->weight) g_order.push_back(d);
    }

    const ScenarioDef* find_def(const std::string& n) { for (auto& d : registry()) if (d.name == n) return &d; return nullptr; }
    const ScenarioDef* def_of(uint64_t i) { return g_order[i % g_order.size()]; }

    Plan plan_of(uint64_t i)
    {
        const ScenarioDef* d = def_of(i);
        Plan p; p.scen = d->name;
        p.seed = mix64(g_seed * 0x9E3779B97F4A7C15ull ^ mix64(hash_str(g_prop + "/" + d->name) + i)) >> 1;
        p.knobs.assign(K_USER, 0);
        Rng r(p.seed);
        p.knobs[K_PLACE] = r.range(0, 2);
        p.knobs[K_FILL] = r.range(0, 3);
        p.knobs[K_RED] = r.range(0, 2);
        p.knobs[K_SKEW] = r.chance(60) ? 0 : r.range(1, 4);
        p.knobs[K_START] = r.range(0, 5);
        d->generate(r, p);
        return p;
    }

    void* shared_map(size_t n)
    {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(4); }
        return p;
    }

    struct Attempt { bool viol = false; std::string cls, msg; uint64_t hash = 0, step = 0; int op = 0, client = 0; int bad = 0; RunStats st{}; };

    // Runs a plan in a forked child.
    Attempt attempt(const Plan& p, bool trace = false)
    {
        struct Sh { Result res; RunStats st; volatile int ok; volatile uint64_t progress; };
        static Sh* sh = static_cast<Sh*>(shared_map(sizeof(Sh)));
        memset(sh, 0, sizeof *sh);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (!pid)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            set_result(&sh->res); set_trace(trace); watch(&sh->progress);
            sh->st = execute(p, *find_def(p.scen));
            sh->ok = 1;
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        Attempt a;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh->res.set) { a.viol = true; a.cls = sh->res.cls; a.msg = sh->res.msg; a.hash = sh->res.hash; a.step = sh->res.step; a.op = sh->res.op; a.client = sh->res.client; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->ok) { a.st = sh->st; a.hash = sh->st.hash; }
        else a.bad = st ? st : 1;
        return a;
    }

    Plan minimise(Plan p, const std::string& cls, double budget, int& tried)
    {
        double end = now_s() + budget;
        tried = 0;
        auto still = [&](const Plan& q) { if (now_s() > end || tried > 4000) return false; tried++; Attempt a = attempt(q); return a.viol && a.cls == cls; };
        auto shrink = [&](auto member) {
            bool any = false;
            size_t chunk = std::max<size_t>(1, (p.*member).size() / 2);
            while (!(p.*member).empty())
            {
                bool hit = false;
                for (size_t i = 0; i < (p.*member).size();)
                {
                    Plan q = p;
                    auto& v = q.*member;
                    size_t e = std::min(v.size(), i + chunk);
                    v.erase(v.begin() + long(i), v.begin() + long(e));
                    if (still(q)) { p = q; hit = any = true; }
                    else i += chunk;
                    if (now_s() > end) return any;
                }
                if (chunk == 1) { if (!hit) break; }
                else chunk = std::max<size_t>(1, chunk / 2);
            }
            return any;
        };
        for (int round = 0; round < 4; round++)
        {
            bool any = false;
            any |= shrink(&Plan::pre);
            any |= shrink(&Plan::faults);
            any |= shrink(&Plan::ops);
            // pres and faults of removed ops are dead
            {
                Plan q = p;
                auto alive = [&](int op) { if (op < 0) return true; for (auto& o : q.ops) if (o.id == op) return true; return false; };
                q.pre.erase(std::remove_if(q.pre.begin(), q.pre.end(), [&](auto& x) { return !alive(x.op); }), q.pre.end());
                q.faults.erase(std::remove_if(q.faults.begin(), q.faults.end(), [&](auto& x) { return !alive(x.op); }), q.faults.end());
                if (q.pre.size() + q.faults.size() < p.pre.size() + p.faults.size() && still(q)) p = q;
            }
            for (size_t k = 0; k < p.knobs.size() && k < K_USER; k++)
                if (p.knobs[k] && k != K_CLIENTS) { Plan q = p; q.knobs[k] = 0; if (still(q)) { p = q; any = true; } }
            for (size_t i = 0; i < p.ops.size(); i++)
                for (int64_t Op::* f : { &Op::a, &Op::b, &Op::c })
                    for (int64_t v : { int64_t(0), int64_t(1), p.ops[i].*f / 2, p.ops[i].*f - 1 })
                    {
                        if (v == p.ops[i].*f || v < 0 || v > p.ops[i].*f) continue;
                        Plan q = p; q.ops[i].*f = v;
                        if (still(q)) { p = q; any = true; break; }
                    }
            for (size_t i = 0; i < p.faults.size(); i++)
                if (p.faults[i].len > 1 && p.faults[i].kind != F_STALL) { Plan q = p; q.faults[i].len = 1; if (still(q)) { p = q; any = true; } }
            // merge all operations onto one client when the schedule does not matter
            {
                Plan q = p; bool diff = false;
                for (auto& o : q.ops) { if (o.client != q.ops[0].client) diff = true; o.client = q.ops[0].client; }
                if (diff && still(q)) { p = q; any = true; }
            }
            if (!any) break;
        }
        return p;
    }

    std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
        return o + "\"";
    }

    std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
}

int main(int argc, char** argv)
{
    // fixed addresses make messages and hashes independent of address space randomisation
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1)
    {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> opt; std::vector<std::string> pos; std::vector<std::string> known;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--known" && i + 1 < argc) known.push_back(argv[++i]);
        else if (a.compare(0, 2, "--") == 0 && i + 1 < argc && argv[i + 1][0] != '-') { opt[a.substr(2)] = argv[i + 1]; i++; }
        else if (a.compare(0, 2, "--") == 0) opt[a.substr(2)] = "1";
        else pos.push_back(a);
    }
    std::string mode = pos.empty() ? "" : pos[0];
    init(argv[0]);
    if (mode == "list") { for (auto& d : registry()) printf("%s %s %d\n", d.property.c_str(), d.name.c_str(), d.weight); return 0; }

    if (mode == "replay")
    {
        Plan p; std::string expect, eh;
        if (!p.parse(slurp(pos.at(1)), &expect, &eh) || !find_def(p.scen)) { fprintf(stderr, "cannot read %s\n", pos[1].c_str()); return 2; }
        Attempt a = attempt(p, opt.count("trace"));
        if (a.bad) { printf("REPLAY error status=%d\n", a.bad); return 2; }
        if (!a.viol) { printf("REPLAY clean hash=%016llx\n", (unsigned long long)a.hash); return 0; }
        char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)a.hash);
        printf("REPLAY violation class=%s hash=%s expected_class=%s expected_hash=%s\n%s\n", a.cls.c_str(), h, expect.c_str(), eh.c_str(), a.msg.c_str());
        return 3;
    }

    g_prop = opt["prop"]; g_seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    build_order(opt["only"]);
    if (g_order.empty()) { fprintf(stderr, "no scenario for property %s\n", g_prop.c_str()); return 2; }

    if (mode == "show") { printf("%s", plan_of(strtoull(opt["index"].c_str(), nullptr, 10)).text().c_str()); return 0; }

    if (mode != "search") { fprintf(stderr, "usage: %s list | search --prop P --seed S --runs N --jobs J --wall S --out F --viol F | replay F | show --prop P --seed S --index I\n", argv[0]); return 2; }

    uint64_t runs = strtoull(opt["runs"].c_str(), nullptr, 10);
    int jobs = std::max(1, atoi(opt["jobs"].c_str()));
    double wall = atof(opt["wall"].c_str()), t0 = now_s(), deadline = t0 + wall;
    Shared* sh = static_cast<Shared*>(shared_map(sizeof(Shared) * size_t(jobs)));
    uint64_t* hashes = static_cast<uint64_t*>(shared_map(sizeof(uint64_t) * (runs + 1)));
    std::vector<pid_t> pids(size_t(jobs), 0);
    volatile uint64_t* stop = static_cast<volatile uint64_t*>(shared_map(4096)); // runs above this index are not needed
    *stop = UINT64_MAX;

    auto scenIndex = [&](const ScenarioDef* d) { for (size_t i = 0; i < g_defs.size(); i++) if (g_defs[i] == d) return i; return size_t(0); };

    auto spawn = [&](int w, uint64_t from) {
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid) { pids[size_t(w)] = pid; return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Shared& s = sh[w];
        set_result(&s.res); set_probes(&s.probes); watch(&s.progress);
        for (uint64_t i = from; i < runs; i += uint64_t(jobs))
        {
            if (i > *stop) break;
            if (((i / uint64_t(jobs)) & 63) == 0 && now_s() > deadline) break;
            s.index = i; s.progress = s.progress + 1;
            Plan p = plan_of(i);
            RunStats st = execute(p, *def_of(i));
            s.runs++; s.steps += st.steps; s.switches += st.switches; s.midop += st.midop_switches; s.ops += st.ops; s.heapreq += st.heapreq;
            for (int k = 0; k < F_NUM; k++) s.fired[k] += st.fired[k];
            s.perScen[scenIndex(def_of(i)) & 127]++;
            hashes[i] = (st.hash & ~3ull) | 2 | (st.nontrivial ? 1 : 0);
        }
        s.done = 1;
        _exit(0);
    };

    for (int w = 0; w < jobs; w++) spawn(w, uint64_t(w));
    int live = jobs, error = 0;
    bool found = false; uint64_t vIndex = 0; std::string vCls, vMsg;
    std::map<std::string, uint64_t> knownHits; std::map<std::string, uint64_t> knownIndex;
    while (live > 0)
    {
        int st = 0; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) break;
        int w = -1; for (int i = 0; i < jobs; i++) if (pids[size_t(i)] == pid) w = i;
        if (w < 0) continue;
        live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh[w].res.set)
        {
            std::string cls = sh[w].res.cls;
            if (std::find(known.begin(), known.end(), cls) != known.end())
            {
                if (!knownHits[cls]++) knownIndex[cls] = sh[w].index;
                sh[w].res.set = 0;
                sh[w].runs++;
                hashes[sh[w].index] = (sh[w].res.hash & ~3ull) | 3;
                if (sh[w].index < *stop) { live++; spawn(w, sh[w].index + uint64_t(jobs)); }
                continue;
            }
            if (!found || sh[w].index < vIndex) { found = true; vIndex = sh[w].index; vCls = cls; vMsg = sh[w].res.msg; }
            *stop = vIndex; // runs below it still finish, so that the reported run does not depend on timing
            continue;
        }
        fprintf(stderr, "worker %d ended with status %d at run %llu\n", w, st, (unsigned long long)sh[w].index);
        error = 1; *stop = 0;
    }
    double tSearch = now_s() - t0;

    // determinism: re-execute a sample of the runs in other processes and compare event-log hashes
    uint64_t rechecked = 0, mismatches = 0;
    if (!found && !error)
    {
        uint64_t want = std::min<uint64_t>(runs, strtoull(opt.count("recheck") ? opt["recheck"].c_str() : "1500", nullptr, 10));
        uint64_t stride = std::max<uint64_t>(1, runs / std::max<uint64_t>(1, want));
        uint64_t* cnt = static_cast<uint64_t*>(shared_map(sizeof(uint64_t) * 4 * 64));
        int rj = 5; // a different worker count than the search
        std::vector<pid_t> ps;
        for (int w = 0; w < rj; w++)
        {
            pid_t pid = fork();
            if (!pid)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                Result* r = static_cast<Result*>(shared_map(sizeof(Result)));
                set_result(r); volatile uint64_t pr = 0; watch(&pr);
                for (uint64_t k = uint64_t(w); k * stride < runs; k += uint64_t(rj))
                {
                    uint64_t i = k * stride;
                    if (!(hashes[i] & 2)) continue;
                    if ((hashes[i] & 1) && !knownHits.empty()) { Plan p = plan_of(i); Attempt a = attempt(p); uint64_t h = (a.hash & ~3ull); cnt[w * 4]++; if (h != (hashes[i] & ~3ull)) { cnt[w * 4 + 1]++; cnt[w * 4 + 2] = i; } continue; }
                    pr = pr + 1;
                    Plan p = plan_of(i);
                    RunStats st = execute(p, *def_of(i));
                    cnt[w * 4]++;
                    if ((st.hash & ~3ull) != (hashes[i] & ~3ull)) { cnt[w * 4 + 1]++; cnt[w * 4 + 2] = i; }
                }
                _exit(0);
            }
            ps.push_back(pid);
        }
        for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) mismatches++; }
        for (int w = 0; w < rj; w++) { rechecked += cnt[w * 4]; mismatches += cnt[w * 4 + 1]; if (cnt[w * 4 + 1]) fprintf(stderr, "run %llu is not deterministic\n", (unsigned long long)cnt[w * 4 + 2]); }
    }

    // statistics
    Shared tot; memset(&tot, 0, sizeof tot);
    std::map<std::string, uint64_t> probes;
    for (int w = 0; w < jobs; w++)
    {
        tot.runs += sh[w].runs; tot.steps += sh[w].steps; tot.switches += sh[w].switches; tot.midop += sh[w].midop; tot.ops += sh[w].ops; tot.heapreq += sh[w].heapreq;
        for (int k = 0; k < F_NUM; k++) tot.fired[k] += sh[w].fired[k];
        for (size_t k = 0; k < 128; k++) tot.perScen[k] += sh[w].perScen[k];
        for (int k = 0; k < sh[w].probes.n; k++) probes[sh[w].probes.e[k].name] += sh[w].probes.e[k].count;
    }
    std::vector<uint64_t> hv; hv.reserve(runs);
    for (uint64_t i = 0; i < runs; i++) if (hashes[i]) hv.push_back(hashes[i]);
    std::sort(hv.begin(), hv.end());
    hv.erase(std::unique(hv.begin(), hv.end()), hv.end());
    uint64_t distinct = hv.size(), nontriv = uint64_t(std::count_if(hv.begin(), hv.end(), [](uint64_t h) { return h & 1; }));

    std::string vio;
    if (found)
    {
        Plan p = plan_of(vIndex);
        Attempt first = attempt(p);
        if (!first.viol) { fprintf(stderr, "violation %s of run %llu does not reproduce: %s\n", vCls.c_str(), (unsigned long long)vIndex, vMsg.c_str()); error = 1; }
        else
        {
            int tried = 0;
            size_t o0 = p.ops.size(), p0 = p.pre.size(), f0 = p.faults.size();
            Plan m = minimise(p, first.cls, opt.count("minimise-s") ? atof(opt["minimise-s"].c_str()) : 40, tried);
            Attempt last = attempt(m);
            if (!last.viol || last.cls != first.cls) { m = p; last = first; }
            std::ofstream f(opt["viol"]);
            char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)last.hash);
            std::string oneline = last.msg; for (char& c : oneline) if (c == '\n') c = ' ';
            f << "# " << g_prop << " violation: " << last.cls << "\n# found by VERIF_SEED=" << g_seed << " run " << vIndex << "; minimised from " << o0 << " ops, " << p0 << " preemptions, " << f0 << " faults in " << tried << " attempts\n";
            f << "property " << g_prop << "\nmessage " << oneline << "\nexpect_class " << last.cls << "\nexpect_hash " << h << "\n" << m.text();
            f.close();
            char b[512]; snprintf(b, sizeof b, "{\"index\":%llu,\"plan_seed\":%llu,\"ops\":[%zu,%zu],\"pre\":[%zu,%zu],\"faults\":[%zu,%zu],\"attempts\":%d,", (unsigned long long)vIndex, (unsigned long long)p.seed, o0, m.ops.size(), p0, m.pre.size(), f0, m.faults.size(), tried);
            vio = std::string(b) + "\"class\":" + jstr(last.cls) + ",\"scenario\":" + jstr(m.scen) + ",\"message\":" + jstr(last.msg) + "}";
        }
    }

    std::ofstream o(opt["out"]);
    o << "{\"property\":" << jstr(g_prop) << ",\"seed\":" << g_seed << ",\"runs\":" << tot.runs << ",\"requested\":" << runs << ",\"jobs\":" << jobs << ",\"search_s\":" << tSearch
      << ",\"steps\":" << tot.steps << ",\"switches\":" << tot.switches << ",\"midop_switches\":" << tot.midop << ",\"ops\":" << tot.ops << ",\"heap_requests\":" << tot.heapreq
      << ",\"distinct\":" << distinct << ",\"distinct_nontrivial\":" << nontriv << ",\"rechecked\":" << rechecked << ",\"mismatches\":" << mismatches << ",\"error\":" << error;
    o << ",\"faults\":{"; for (int k = 0; k < F_NUM; k++) o << (k ? "," : "") << jstr(kFaultNames[k]) << ":" << tot.fired[k];
    o << "},\"scenarios\":{"; for (size_t k = 0; k < g_defs.size(); k++) o << (k ? "," : "") << jstr(g_defs[k]->name) << ":" << tot.perScen[k & 127];
    o << "},\"probes\":{"; { bool c = false; for (auto& kv : probes) { o << (c ? "," : "") << jstr(kv.first) << ":" << kv.second; c = true; } }
    o << "},\"known\":{"; { bool c = false; for (auto& kv : knownHits) { o << (c ? "," : "") << jstr(kv.first) << ":{\"count\":" << kv.second << ",\"index\":" << knownIndex[kv.first] << "}"; c = true; } }
    o << "},\"samples\":[";
    { bool c = false; for (uint64_t i = 0, n = 0; i < runs && n < 3; i++) if ((hashes[i] & 3) == 3) { Plan p = plan_of(i); if (p.ops.size() > 14) { if (i < 4000) continue; } o << (c ? "," : "") << jstr(p.text()); c = true; n++; } }
    o << "]"; if (!vio.empty()) o << ",\"violation\":" << vio;
    o << "}\n";
    o.close();
    if (error || mismatches) return 2;
    return found ? 1 : 0;
}
