// A small CDCL solver with two faces, both of which watch how they are used:
//  * built with -DPROGRAM: a SAT competition style program (DIMACS from a file or standard input);
//  * otherwise: an IPASIR library that records every protocol breach of its caller.
// Environment: MS_SEED (random phases), MS_LOG (append what was observed there),
//              MS_PARTIAL (ipasir_val answers 0 where the value does not matter),
//              MS_INTERRUPT=n (the n-th solve answers "interrupted").
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::vector<int> Clause;

static uint64_t rng_state = 88172645463325252ull;
static uint32_t rnd() {
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return (uint32_t)(rng_state >> 32);
}

static void note(const std::string &text) {
    const char *path = getenv("MS_LOG");
    if (!path) return;
    FILE *f = fopen(path, "a");
    if (!f) return;
    fprintf(f, "%s\n", text.c_str());
    fclose(f);
}

struct Engine {
    // literal encoding: 2*v (positive), 2*v+1 (negative)
    int nvars = 0;
    bool broken = false;
    std::vector<Clause> clauses;
    std::vector<std::vector<int>> watches;
    std::vector<signed char> value;     // per variable: 0 unknown, 1, -1
    std::vector<signed char> phase;
    std::vector<int> level, reason, trail, limits;
    std::vector<double> activity;
    std::vector<char> seen;
    std::vector<Clause> original;
    size_t head = 0;
    double bump = 1.0;
    int (*terminate)(void *) = nullptr;
    void *terminate_data = nullptr;
    void (*learn)(void *, int *) = nullptr;
    void *learn_data = nullptr;
    int learn_max = 0;
    std::vector<signed char> model;
    std::vector<char> failed;

    static int enc(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
    static int ext(int l) { return l & 1 ? -(l >> 1) : (l >> 1); }

    void grow(int v) {
        if (v <= nvars) return;
        nvars = v;
        watches.resize(2 * v + 2); value.resize(v + 1); level.resize(v + 1); reason.resize(v + 1, -1);
        activity.resize(v + 1); seen.resize(v + 1);
        size_t old = phase.size();
        phase.resize(v + 1);
        for (size_t i = old; i < phase.size(); i++) { phase[i] = rnd() & 1 ? 1 : -1; activity[i] = (rnd() & 1023) * 1e-6; }
    }
    int val(int l) { int v = value[l >> 1]; return l & 1 ? -v : v; }
    void assign(int l, int why) {
        value[l >> 1] = l & 1 ? -1 : 1;
        level[l >> 1] = (int)limits.size();
        reason[l >> 1] = why;
        trail.push_back(l);
    }
    void undo(int to) {
        if ((int)limits.size() <= to) return;
        for (size_t i = trail.size(); i > (size_t)limits[to]; i--) {
            int v = trail[i - 1] >> 1;
            phase[v] = value[v];
            value[v] = 0;
            reason[v] = -1;
        }
        trail.resize(limits[to]);
        limits.resize(to);
        head = std::min(head, trail.size());
    }
    void add(const Clause &input) {
        original.push_back(input);
        undo(0);
        Clause c;
        for (int l : input) { grow(abs(l)); c.push_back(enc(l)); }
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        for (size_t i = 1; i < c.size(); i++) if (c[i] == (c[i - 1] ^ 1)) return;
        Clause d;
        for (int l : c) {
            if (val(l) > 0) return;
            if (val(l) == 0) d.push_back(l);
        }
        if (d.empty()) { broken = true; return; }
        if (d.size() == 1) { assign(d[0], -1); return; }
        attach(d);
    }
    int attach(const Clause &c) {
        clauses.push_back(c);
        watches[c[0] ^ 1].push_back((int)clauses.size() - 1);
        watches[c[1] ^ 1].push_back((int)clauses.size() - 1);
        return (int)clauses.size() - 1;
    }
    int propagate() {
        while (head < trail.size()) {
            int l = trail[head++];
            std::vector<int> &ws = watches[l];
            size_t j = 0;
            for (size_t i = 0; i < ws.size(); i++) {
                Clause &c = clauses[ws[i]];
                if (c[0] == (l ^ 1)) std::swap(c[0], c[1]);
                if (val(c[0]) > 0) { ws[j++] = ws[i]; continue; }
                bool moved = false;
                for (size_t k = 2; k < c.size(); k++) if (val(c[k]) >= 0) {
                    std::swap(c[1], c[k]);
                    watches[c[1] ^ 1].push_back(ws[i]);
                    moved = true;
                    break;
                }
                if (moved) continue;
                ws[j++] = ws[i];
                if (val(c[0]) < 0) {
                    int conflict = ws[i];
                    for (i++; i < ws.size(); i++) ws[j++] = ws[i];
                    ws.resize(j);
                    head = trail.size();
                    return conflict;
                }
                assign(c[0], ws[i]);
            }
            ws.resize(j);
        }
        return -1;
    }
    void analyse(int conflict, Clause &out, int &back) {
        out.assign(1, 0);
        int pending = 0, p = -1;
        size_t index = trail.size();
        do {
            for (int l : clauses[conflict]) {
                if (l == p) continue;
                int v = l >> 1;
                if (seen[v] || level[v] == 0) continue;
                seen[v] = 1;
                activity[v] += bump;
                if (activity[v] > 1e100) { for (double &a : activity) a *= 1e-100; bump *= 1e-100; }
                if (level[v] == (int)limits.size()) pending++; else out.push_back(l);
            }
            while (!seen[trail[--index] >> 1]);
            p = trail[index];
            conflict = reason[p >> 1];
            seen[p >> 1] = 0;
        } while (--pending > 0);
        out[0] = p ^ 1;
        back = 0;
        for (size_t i = 1; i < out.size(); i++) {
            seen[out[i] >> 1] = 0;
            if (level[out[i] >> 1] > back) { back = level[out[i] >> 1]; std::swap(out[1], out[i]); }
        }
        bump *= 1.05;
    }
    int solve(const std::vector<int> &assumptions) {
        failed.assign(2 * nvars + 2, 0);
        for (int l : assumptions) { grow(abs(l)); failed.resize(2 * nvars + 2); }
        undo(0);
        if (broken) return 20;
        int conflicts = 0, until = 100;
        for (;;) {
            int conflict = propagate();
            if (conflict >= 0) {
                if (limits.empty()) { broken = true; return 20; }
                Clause c;
                int back;
                analyse(conflict, c, back);
                if (learn && (int)c.size() <= learn_max) {
                    std::vector<int> e;
                    for (int l : c) e.push_back(ext(l));
                    e.push_back(0);
                    learn(learn_data, e.data());
                }
                undo(back);
                if (c.size() == 1) assign(c[0], -1);
                else assign(c[0], attach(c));
                if (terminate && terminate(terminate_data)) { undo(0); return 0; }
                if (++conflicts >= until) { until += until / 10 + 100; undo(0); }
                continue;
            }
            if (limits.size() < assumptions.size()) {
                int l = enc(assumptions[limits.size()]);
                if (val(l) < 0) {       // which assumptions force it
                    std::vector<int> stack(1, l ^ 1);
                    std::set<int> done;
                    failed[l] = 1;
                    while (!stack.empty()) {
                        int v = stack.back() >> 1;
                        stack.pop_back();
                        if (level[v] == 0 || !done.insert(v).second) continue;
                        if (reason[v] < 0) failed[value[v] > 0 ? 2 * v : 2 * v + 1] = 1;
                        else for (int k : clauses[reason[v]]) if ((k >> 1) != v) stack.push_back(k);
                    }
                    undo(0);
                    return 20;
                }
                limits.push_back((int)trail.size());
                if (val(l) == 0) assign(l, -1);
                continue;
            }
            int best = 0;
            for (int v = 1; v <= nvars; v++) if (!value[v] && (!best || activity[v] > activity[best])) best = v;
            if (!best) break;
            limits.push_back((int)trail.size());
            assign(phase[best] > 0 ? 2 * best : 2 * best + 1, -1);
        }
        model = value;
        for (const Clause &c : original) {
            bool ok = false;
            for (int l : c) if (l > 0 ? model[l] > 0 : model[-l] < 0) ok = true;
            if (!ok) { note("INTERNAL wrong model"); abort(); }
        }
        undo(0);
        return 10;
    }
    void relax() {      // drop values that do not matter
        std::vector<std::vector<int>> in(nvars + 1);
        std::vector<int> sat(original.size());
        for (size_t i = 0; i < original.size(); i++)
            for (int l : original[i]) if (l > 0 ? model[l] > 0 : model[-l] < 0) { sat[i]++; in[abs(l)].push_back((int)i); }
        for (int v = 1; v <= nvars; v++) {
            bool needed = false;
            for (int i : in[v]) if (sat[i] <= (int)std::count_if(original[i].begin(), original[i].end(), [&](int l) {
                return abs(l) == v && (l > 0 ? model[v] > 0 : model[v] < 0); })) needed = true;
            if (needed) continue;
            for (int i : in[v]) sat[i]--;
            model[v] = 0;
        }
    }
};

static void seed_from_environment() {
    const char *s = getenv("MS_SEED");
    if (s) rng_state ^= (uint64_t)strtoull(s, nullptr, 10) * 0x9E3779B97F4A7C15ull;
    if (!rng_state) rng_state = 1;
    for (int i = 0; i < 10; i++) rnd();
}

#ifdef PROGRAM
static int bad(const char *text) {
    note(std::string("MALFORMED ") + text);
    printf("c malformed problem: %s\ns UNKNOWN\n", text);
    return 1;
}
#include <unistd.h>
#include <signal.h>
static void put(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) { ssize_t n = write(1, s.data() + i, s.size() - i); if (n <= 0) return; i += n; }
}
// MS_FAULT: kind:number, applied to call MS_CALL (counted in the file MS_COUNTER), every call if unset
static bool faulty(std::string &kind, long &number) {
    const char *f = getenv("MS_FAULT");
    if (!f) return false;
    const char *file = getenv("MS_COUNTER"), *call = getenv("MS_CALL");
    if (file && call) {
        FILE *c = fopen(file, "a");
        fputc('.', c);
        long k = ftell(c);
        fclose(c);
        if (k != atol(call)) return false;
    }
    const char *colon = strchr(f, ':');
    kind = colon ? std::string(f, colon - f) : f;
    number = colon ? atol(colon + 1) : 0;
    return true;
}
static std::string fault;
static long fault_number;
static bool fault_now;
static int emit(std::string out, size_t status, size_t done, int code) {
    std::string answer = out.substr(status);
    if (fault_now) {
        bool complete = false;
        if (fault == "truncate" || fault == "kill" || fault == "segv" || fault == "exit0") {
            size_t k = (size_t)fault_number > out.size() ? out.size() : (size_t)fault_number;
            complete = k >= done;
            note(std::string("FAULT ") + (complete ? "complete" : "incomplete"));
            put(out.substr(0, k));
            if (fault == "kill") raise(SIGKILL);
            if (fault == "segv") raise(SIGSEGV);
            return fault == "exit0" ? 0 : code;
        }
        note("FAULT incomplete");
        size_t values = answer.find("\nv");
        std::string head = "c mini solver\n", tail = values == std::string::npos ? "" : answer.substr(values + 1);
        if (fault == "status") {
            static const char *texts[] = {"s UNKNOWN\n", "s INDETERMINATE\n", "s UNSATISFIABL\n", "s SATISFIABL\n", "s\n", "s TIMEOUT\n", "s unsatisfiable\n",
                                          "s satisfiable\n", "s ABORTED\n", "s ERROR\n", "status SATISFIABLE\n"};
            put(head + texts[fault_number % 11] + tail);
            return fault_number % 2 ? 0 : 1;
        }
        if (fault == "nostatus") { put(head + (fault_number % 2 ? tail : std::string("c UNSATISFIABLE\nUNSATISFIABLE\nSATISFIABLE\n"))); return fault_number % 3 ? 20 : 10; }
        if (fault == "word") {      // a word that is not a number among the values
            std::vector<size_t> places;     // in front of the values of value lines
            for (size_t i = 0, line = 0; i < tail.size(); i++) {
                if (tail[i] == '\n') line = i + 1;
                else if (tail[i] == ' ' && tail[line] == 'v') places.push_back(i);
            }
            if (places.empty()) tail.clear();
            size_t p = tail.empty() ? 0 : places[fault_number % places.size()];
            put(head + "s SATISFIABLE\n" + (tail.empty() ? std::string("v x 0\n") : tail.substr(0, p) + " x" + tail.substr(p)));
            return 10;
        }
        if (fault == "stray") {     // a line that is no value line among the values
            static const char *lines[] = {"segmentation fault\n", "s UNSATISFIABLE\n", "s UNKNOWN\n", "1 2 3\n", "-1 0\n", "o 17\n", "error: out of memory\n"};
            size_t p = tail.empty() ? std::string::npos : tail.find('\n', fault_number % tail.size());
            size_t last = tail.rfind('\n', tail.size() - 2);
            if (p == std::string::npos || p > last) p = std::string::npos;
            std::string line = lines[fault_number % 7];
            put(head + "s SATISFIABLE\n" + (p == std::string::npos ? line + tail : tail.substr(0, p + 1) + line + tail.substr(p + 1)));
            return 10;
        }
        if (fault == "novalues") { put(head + "s SATISFIABLE\n"); return 10; }
        if (fault == "zero") { put(head + "s SATISFIABLE\nv 0\n"); return 10; }
        put(out);
        return code;
    }
    put(out);
    return code;
}
int main(int argc, char **argv) {
    seed_from_environment();
    fault_now = faulty(fault, fault_number);
    if (fault_now) {
        if (fault == "silent") { note("FAULT incomplete"); return (int)fault_number; }
        if (fault == "early") {     // dies while the problem is still being written
            note("FAULT incomplete");
            char some[64];
            ssize_t got = read(0, some, fault_number % 64);
            (void)got;
            if (fault_number % 2) raise(SIGKILL);
            return 1;
        }
        if (fault == "comment") { note("FAULT incomplete"); put("c this solver only talks\nc s UNSATISFIABLE\n"); return (int)fault_number; }
    }
    FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin;
    if (!f) return bad("cannot open the file");
    long nv = -1, nc = -1;
    std::vector<Clause> clauses;
    char line[1 << 16];
    Clause current;
    std::string token;
    // header and comments by line, clauses by token
    int c;
    bool start = true;
    std::string text;
    while ((c = getc(f)) != EOF) {
        if (start && c == 'c') { while (c != '\n' && c != EOF) c = getc(f); continue; }
        if (start && c == 'p') {
            if (!fgets(line, sizeof line, f)) return bad("header");
            if (nv >= 0) return bad("two headers");
            char kind[16];
            if (sscanf(line, " %15s %ld %ld", kind, &nv, &nc) != 3 || strcmp(kind, "cnf")) return bad("header");
            continue;
        }
        start = c == '\n';
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r') {
            if (!token.empty()) {
                char *end;
                long l = strtol(token.c_str(), &end, 10);
                if (*end) return bad("not a number");
                if (nv < 0) return bad("no header");
                if (labs(l) > nv) return bad("variable out of range");
                if (l) current.push_back((int)l);
                else { clauses.push_back(current); current.clear(); }
                token.clear();
            }
        } else token += (char)c;
    }
    if (!token.empty()) {
        if (token != "0") return bad("ends inside a clause");
        clauses.push_back(current);
        current.clear();
    }
    if (!current.empty()) return bad("ends inside a clause");
    if ((long)clauses.size() != nc) return bad("wrong number of clauses");
    Engine e;
    e.grow((int)nv);
    for (const Clause &cl : clauses) e.add(cl);
    int r = e.solve({});
    std::string out = "c mini solver\n";
    note("PROBLEM vars=" + std::to_string(nv) + " clauses=" + std::to_string(nc) + " answer=" + std::to_string(r));
    size_t status = out.size(), done;       // where the status line starts; where the answer is complete
    if (r == 20) { out += "s UNSATISFIABLE"; done = out.size(); out += "\n"; }
    else {
        out += "s SATISFIABLE\n";
        int width = 1 + rnd() % 40;
        int k = 0;
        for (long v = 1; v <= nv; v++) {
            if (k == 0) out += "v";
            out += " " + std::to_string(e.model[v] > 0 ? v : -v);
            if (++k == width) { out += "\n"; k = 0; if (rnd() % 50 == 0) out += "c a comment between the values\n"; }
        }
        if (k == 0) out += "v";
        out += " 0";
        done = out.size();
        out += "\n";
    }
    return emit(out, status, done, r);
}
#else
enum State { INPUT, SAT, UNSAT };
struct Handle {
    Engine engine;
    Clause current;
    bool open = false;
    std::vector<int> assumptions;
    State state = INPUT;
    std::set<int> known;
};
static std::map<void *, bool> live;     // handle -> alive (false: released)
static long created, released, solves, adds, values;

static Handle *use(void *p, const char *what) {
    auto it = live.find(p);
    if (it == live.end()) { note(std::string("BREACH ") + what + " on something that is not a solver"); return nullptr; }
    if (!it->second) { note(std::string("BREACH ") + what + " after release"); return nullptr; }
    return (Handle *)p;
}
extern "C" {
const char *ipasir_signature() { return "minisolver"; }
void *ipasir_init() {
    static bool first = true;
    if (first) { first = false; seed_from_environment(); }
    Handle *h = new Handle;
    live[h] = true;
    created++;
    return h;
}
void ipasir_release(void *p) {
    Handle *h = use(p, "release");
    if (!h) return;
    live[p] = false;    // kept allocated, so that a later use is recognised
    h->engine = Engine();
    released++;
}
void ipasir_add(void *p, int32_t l) {
    Handle *h = use(p, "add");
    if (!h) return;
    adds++;
    h->state = INPUT;
    if (l == INT32_MIN) { note("BREACH add of INT_MIN"); return; }
    if (l) { h->current.push_back(l); h->known.insert(abs(l)); }
    else { h->engine.add(h->current); h->current.clear(); }
}
void ipasir_assume(void *p, int32_t l) {
    Handle *h = use(p, "assume");
    if (!h) return;
    if (!l || l == INT32_MIN) { note("BREACH assume of an invalid literal"); return; }
    h->state = INPUT;
    h->assumptions.push_back(l);
    h->known.insert(abs(l));
}
int ipasir_solve(void *p) {
    Handle *h = use(p, "solve");
    if (!h) return 0;
    solves++;
    if (!h->current.empty()) note("BREACH solve inside a clause");
    const char *n = getenv("MS_INTERRUPT");
    if (n && atol(n) == solves) { h->state = INPUT; h->assumptions.clear(); return 0; }
    const char *strange = getenv("MS_STRANGE");
    if (strange && atol(strange) == solves) { h->state = INPUT; return 7; }
    int r = h->engine.solve(h->assumptions);
    h->assumptions.clear();
    h->state = r == 10 ? SAT : r == 20 ? UNSAT : INPUT;
    if (r == 10 && getenv("MS_PARTIAL")) h->engine.relax();
    return r;
}
int32_t ipasir_val(void *p, int32_t l) {
    Handle *h = use(p, "val");
    if (!h) return 0;
    values++;
    if (h->state != SAT) { note("BREACH val without a model"); return 0; }
    if (!l || !h->known.count(abs(l))) { note("BREACH val of an unknown literal"); return 0; }
    int v = h->engine.model[abs(l)];
    if (!v) return 0;
    return (v > 0) == (l > 0) ? l : -l;
}
int ipasir_failed(void *p, int32_t l) {
    Handle *h = use(p, "failed");
    if (!h) return 0;
    if (h->state != UNSAT) { note("BREACH failed without a refutation"); return 0; }
    size_t i = (size_t)Engine::enc(l);
    return i < h->engine.failed.size() && h->engine.failed[i];
}
void ipasir_set_terminate(void *p, void *data, int (*f)(void *)) {
    Handle *h = use(p, "set_terminate");
    if (!h) return;
    h->engine.terminate = f;
    h->engine.terminate_data = data;
}
void ipasir_set_learn(void *p, void *data, int max, void (*f)(void *, int *)) {
    Handle *h = use(p, "set_learn");
    if (!h) return;
    h->engine.learn = f;
    h->engine.learn_data = data;
    h->engine.learn_max = max;
}
// not part of IPASIR: what this library has seen so far
void minisolver_statistics(long *out) {
    long alive = 0;
    for (auto &it : live) alive += it.second;
    out[0] = created; out[1] = released; out[2] = solves; out[3] = adds; out[4] = values; out[5] = alive;
}
}
#endif
