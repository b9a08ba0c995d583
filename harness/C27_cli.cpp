// C27: command line processing matches declared patterns and options exactly.
#include "C27_cli.hpp"
#include "mc.hpp"
#include <sstream>
#include <deque>

using namespace c27;

std::map<std::string, Adder, std::less<>>& c27::registry()
{
    static std::map<std::string, Adder, std::less<>> map;
    return map;
}

namespace {

const std::map<std::string, Adder, std::less<>>& all_types()
{
    static bool done = (reg_0(), reg_1(), reg_2(), reg_3(), true);
    (void)done;
    return registry();
}

// ---------------------------------------------------------------------------------------------------------------
// Reference model: patterns as trees
// ---------------------------------------------------------------------------------------------------------------

struct Node;
using Seq = std::vector<Node>;
struct Node {
    enum class Kind { kw, opt, val, optional, rep, alt } kind = Kind::val;
    std::string sym; // keyword, or option form with dashes
    std::vector<Seq> subs;
    bool leaf() const { return kind == Kind::kw || kind == Kind::opt || kind == Kind::val; }
};

bool nullable(const Seq& s);
bool nullable(const Node& n)
{
    switch (n.kind) {
        case Node::Kind::optional: return true;
        case Node::Kind::rep: return nullable(n.subs[0]);
        case Node::Kind::alt: {
            for (const Seq& s : n.subs)
                if (nullable(s))
                    return true;
            return false;
        }
        default: return false;
    }
}
bool nullable(const Seq& s)
{
    for (const Node& n : s)
        if (!nullable(n))
            return false;
    return true;
}

// "there exists a nonempty sequence S such that S and all repetitions of S match"
bool repeating(const Seq& s);
bool repeating(const Node& n)
{
    switch (n.kind) {
        case Node::Kind::optional: return repeating(n.subs[0]);
        case Node::Kind::rep: return true;
        case Node::Kind::alt: {
            for (const Seq& s : n.subs)
                if (repeating(s))
                    return true;
            return false;
        }
        default: return false;
    }
}
bool repeating(const Seq& s)
{
    // One element supplies the repetition, the rest is absent
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (!repeating(s[i]))
            continue;
        bool rest = true;
        for (std::size_t j = 0; j < s.size(); ++j)
            rest = rest && (j == i || nullable(s[j]));
        if (rest)
            return true;
    }
    return false;
}

bool structurally_ambiguous(const Seq& s)
{
    for (const Node& n : s) {
        for (const Seq& t : n.subs)
            if (structurally_ambiguous(t))
                return true;
        if ((n.kind == Node::Kind::optional || n.kind == Node::Kind::rep) && nullable(n.subs[0]))
            return true;
        if (n.kind == Node::Kind::rep && repeating(n.subs[0]))
            return true;
        if (n.kind == Node::Kind::alt) {
            int k = 0;
            for (const Seq& t : n.subs)
                k += nullable(t);
            if (k > 1)
                return true;
        }
    }
    return false;
}

std::string text(const Seq& s, bool top);
std::string text(const Node& n, bool in_rep = false)
{
    switch (n.kind) {
        case Node::Kind::kw:
        case Node::Kind::opt: return n.sym;
        case Node::Kind::val: return "<v>";
        case Node::Kind::optional: {
            const Seq& s = n.subs[0];
            if (s.size() == 1 && s[0].kind == Node::Kind::alt) {
                std::string t = text(s[0]);
                return "[" + t.substr(1, t.size() - 2) + "]"; // [a | b]
            }
            return "[" + text(s, true) + "]";
        }
        case Node::Kind::rep: {
            const Seq& s = n.subs[0];
            if (s.size() == 1)
                return text(s[0], true) + "...";
            return "(" + text(s, true) + ")...";
        }
        case Node::Kind::alt: {
            std::string t = "(";
            for (std::size_t i = 0; i < n.subs.size(); ++i)
                t += (i ? " | " : "") + text(n.subs[i], true);
            return t + ")";
        }
    }
    return {};
}
std::string text(const Seq& s, bool)
{
    std::string t;
    for (std::size_t i = 0; i < s.size(); ++i)
        t += (i ? " " : "") + text(s[i]);
    return t;
}

std::string type_of(const Seq& s)
{
    std::string t;
    for (const Node& n : s) {
        switch (n.kind) {
            case Node::Kind::kw:
            case Node::Kind::opt: break;
            case Node::Kind::val: t += "V"; break;
            case Node::Kind::optional: t += "O(" + type_of(n.subs[0]) + ")"; break;
            case Node::Kind::rep: t += "R(" + type_of(n.subs[0]) + ")"; break;
            case Node::Kind::alt:
                t += "A(";
                for (std::size_t i = 0; i < n.subs.size(); ++i)
                    t += (i ? "|" : "") + type_of(n.subs[i]);
                t += ")";
                break;
        }
    }
    return t;
}

// Continuation automaton. A state is what remains to be matched.
struct Item {
    const Node* node;
    bool star; // zero or more further repetitions of repetition construct
    auto operator<=>(const Item&) const = default;
};
using Cont = std::vector<Item>; // In order

bool nullable(const Cont& c)
{
    for (const Item& i : c)
        if (!i.star && !nullable(*i.node))
            return false;
    return true;
}

Cont prepend(const Seq& s, Cont rest)
{
    Cont c;
    for (const Node& n : s)
        c.push_back({ &n, false });
    c.insert(c.end(), rest.begin(), rest.end());
    return c;
}

void steps(const Cont& c, std::set<std::pair<const Node*, Cont>>& out)
{
    if (c.empty())
        return;
    Item i = c[0];
    Cont rest(c.begin() + 1, c.end());
    const Node& n = *i.node;
    switch (n.kind) {
        case Node::Kind::kw:
        case Node::Kind::opt:
        case Node::Kind::val:
            out.insert({ &n, rest });
            return;
        case Node::Kind::optional:
            steps(prepend(n.subs[0], rest), out);
            steps(rest, out);
            return;
        case Node::Kind::rep: {
            Cont rest_2 = rest;
            rest_2.insert(rest_2.begin(), Item{ &n, true });
            steps(prepend(n.subs[0], rest_2), out);
            if (i.star)
                steps(rest, out);
            return;
        }
        case Node::Kind::alt:
            for (const Seq& s : n.subs)
                steps(prepend(s, rest), out);
            return;
    }
}

struct Sym {
    Node::Kind kind;
    std::string sym;
    auto operator<=>(const Sym&) const = default;
};
// Several forms of the same declared option are the same symbol
using Canon = std::function<std::string(const std::string&)>;

Sym sym_of(const Node& n, const Canon& canon)
{
    return { n.kind, (n.kind == Node::Kind::opt ? canon(n.sym) : n.sym) };
}

struct Pat {
    Seq seq;
    bool deleg = false;
    int attr = 0;
    int ret = 0;
};

// All parses of sequence of symbols and argument texts
void parses(const Cont& c, const std::vector<std::pair<Sym, std::string>>& in, std::size_t pos, const Canon& canon, std::string acc, std::set<std::string>& out)
{
    // Items are rendered as they are entered; closing brackets are special items with null node
    if (c.empty()) {
        if (pos == in.size())
            out.insert(acc);
        return;
    }
    Item i = c[0];
    Cont rest(c.begin() + 1, c.end());
    static const Node close_opt = [] { Node n; n.sym = "]"; return n; }();
    static const Node close_alt = [] { Node n; n.sym = ")"; return n; }();
    static const Node close_iter = [] { Node n; n.sym = ";"; return n; }();
    static const Node close_rep = [] { Node n; n.sym = "}"; return n; }();
    if (i.node == &close_opt || i.node == &close_alt || i.node == &close_iter || i.node == &close_rep)
        return parses(rest, in, pos, canon, acc + i.node->sym, out);
    const Node& n = *i.node;
    switch (n.kind) {
        case Node::Kind::kw:
        case Node::Kind::opt:
        case Node::Kind::val:
            if (pos < in.size() && in[pos].first == sym_of(n, canon))
                parses(rest, in, pos + 1, canon, (n.kind == Node::Kind::val ? acc + "<" + in[pos].second + ">" : acc), out);
            return;
        case Node::Kind::optional: {
            parses(rest, in, pos, canon, acc + "[]", out);
            Cont rest_2 = rest;
            rest_2.insert(rest_2.begin(), Item{ &close_opt, false });
            parses(prepend(n.subs[0], rest_2), in, pos, canon, acc + "[+", out);
            return;
        }
        case Node::Kind::rep: {
            if (i.star)
                parses(rest, in, pos, canon, acc, out); // close_rep follows
            Cont rest_2 = rest;
            if (!i.star)
                rest_2.insert(rest_2.begin(), Item{ &close_rep, false });
            rest_2.insert(rest_2.begin(), Item{ &n, true });
            rest_2.insert(rest_2.begin(), Item{ &close_iter, false });
            parses(prepend(n.subs[0], rest_2), in, pos, canon, (i.star ? acc : acc + "{"), out);
            return;
        }
        case Node::Kind::alt: {
            Cont rest_2 = rest;
            rest_2.insert(rest_2.begin(), Item{ &close_alt, false });
            for (std::size_t k = 0; k < n.subs.size(); ++k)
                parses(prepend(n.subs[k], rest_2), in, pos, canon, acc + "(" + char('0' + k) + ":", out);
            return;
        }
    }
}

// Does the pair of patterns have a common match reached through different leaf sequences (same pattern), or at all
// (different patterns)?
bool common_match(const Seq& a, const Seq& b, bool same, const Canon& canon)
{
    struct St {
        Cont x, y;
        bool div;
        auto operator<=>(const St&) const = default;
    };
    std::set<St> seen;
    std::deque<St> queue;
    auto add = [&](St s) {
        if (seen.insert(s).second)
            queue.push_back(s);
    };
    add({ prepend(a, {}), prepend(b, {}), !same });
    while (!queue.empty()) {
        St s = queue.front();
        queue.pop_front();
        if (s.div && nullable(s.x) && nullable(s.y))
            return true;
        std::set<std::pair<const Node*, Cont>> p, q;
        steps(s.x, p);
        steps(s.y, q);
        for (const auto& i : p) {
            for (const auto& j : q) {
                if (sym_of(*i.first, canon) == sym_of(*j.first, canon))
                    add({ i.second, j.second, s.div || i.first != j.first });
            }
        }
    }
    return false;
}

// Is some match of `a` a proper prefix of some match of `b`?
bool proper_prefix(const Seq& a, const Seq& b, const Canon& canon)
{
    using St = std::pair<Cont, Cont>;
    std::set<St> seen;
    std::deque<St> queue;
    auto add = [&](St s) {
        if (seen.insert(s).second)
            queue.push_back(s);
    };
    add({ prepend(a, {}), prepend(b, {}) });
    while (!queue.empty()) {
        St s = queue.front();
        queue.pop_front();
        std::set<std::pair<const Node*, Cont>> p, q;
        steps(s.first, p);
        steps(s.second, q);
        if (nullable(s.first) && !q.empty())
            return true;
        for (const auto& i : p) {
            for (const auto& j : q) {
                if (sym_of(*i.first, canon) == sym_of(*j.first, canon))
                    add({ i.second, j.second });
            }
        }
    }
    return false;
}

// ---------------------------------------------------------------------------------------------------------------
// Reference model: processing
// ---------------------------------------------------------------------------------------------------------------

struct Opt {
    std::vector<std::string> forms;
    int arg = 0; // 0: none, 1: optional, 2: required
    bool shorted = false, stop = false;
    std::string name;
    bool digits_only = false; // argument must be a number
};

struct ModelSpec {
    std::vector<Opt> opts;
    std::vector<Pat> pats;
    bool allow_cross = false, allow_pos = false;

    std::string canon(const std::string& form) const
    {
        for (const Opt& o : opts)
            for (const std::string& f : o.forms)
                if (f == form)
                    return o.forms[0];
        return form;
    }
};

struct Outcome {
    std::vector<std::string> events; // option and pattern function invocations
    bool ret = false;
    int status = -777;
    std::vector<std::pair<std::size_t, cli::ProcError>> errors;
    std::set<std::string> alternatives; // acceptable last events, when nonempty
};

struct Invoc {
    const Opt* opt;
    bool has_arg;
    std::string arg;
    std::size_t index;
};

bool mentions(const Seq& s, const std::string& form, const Canon& canon)
{
    for (const Node& n : s) {
        if (n.kind == Node::Kind::opt && canon(n.sym) == form)
            return true;
        for (const Seq& t : n.subs)
            if (mentions(t, form, canon))
                return true;
    }
    return false;
}
bool has_keyword(const Seq& s, const std::string& kw)
{
    for (const Node& n : s) {
        if (n.kind == Node::Kind::kw && n.sym == kw)
            return true;
        for (const Seq& t : n.subs)
            if (has_keyword(t, kw))
                return true;
    }
    return false;
}

struct Deleg {
    const ModelSpec* spec = nullptr; // specification of the sub-processor
};

// `args` includes program name
void model(const ModelSpec& spec, const ModelSpec* sub, const std::vector<std::string>& args, std::size_t offset, std::vector<Invoc> invocs,
           std::vector<std::pair<std::size_t, cli::ProcError>> errors, Outcome& out)
{
    Canon canon = [&](const std::string& f) { return spec.canon(f); };
    std::vector<std::set<Cont>> states;
    for (const Pat& p : spec.pats)
        states.push_back({ prepend(p.seq, {}) });
    std::vector<std::pair<Sym, std::string>> consumed;
    auto consume = [&](Sym sym, const std::string& arg) {
        std::vector<std::set<Cont>> next;
        bool any = false;
        for (const std::set<Cont>& s : states) {
            std::set<Cont> t;
            for (const Cont& c : s) {
                std::set<std::pair<const Node*, Cont>> p;
                steps(c, p);
                for (const auto& i : p)
                    if (sym_of(*i.first, canon) == sym)
                        t.insert(i.second);
            }
            any = any || !t.empty();
            next.push_back(std::move(t));
        }
        if (!any)
            return false;
        states = std::move(next);
        consumed.emplace_back(sym, arg);
        return true;
    };
    auto match = [&]() -> const Pat* {
        for (std::size_t i = 0; i < states.size(); ++i)
            for (const Cont& c : states[i])
                if (nullable(c))
                    return &spec.pats[i];
        return nullptr;
    };
    auto can_delegate = [&] {
        for (std::size_t i = 0; i < states.size(); ++i)
            if (spec.pats[i].deleg && !states[i].empty())
                return true;
        return false;
    };
    bool mismatch = false; // pattern matching has stopped
    bool stop = false;
    bool own_error = !errors.empty();
    auto err = [&](std::size_t i, cli::ProcError code) {
        errors.emplace_back(i, code);
        own_error = true;
    };
    auto run_options = [&] {
        for (const Invoc& v : invocs) {
            if (!v.has_arg) {
                out.events.push_back("o:" + v.opt->name);
                continue;
            }
            if (v.opt->digits_only && (v.arg.empty() || v.arg.find_first_not_of("0123456789") != std::string::npos)) {
                err(v.index, cli::ProcError::bad_option_arg);
                continue;
            }
            out.events.push_back("o:" + v.opt->name + "=" + v.arg);
        }
    };
    auto fail = [&] {
        run_options();
        std::stable_sort(errors.begin(), errors.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
        out.errors = errors;
        out.ret = true;
        out.status = EXIT_FAILURE;
    };
    std::size_t i = offset;
    for (;;) {
        if (!mismatch) {
            const Pat* p = match();
            if (p && p->deleg) {
                out.events.clear();
                out.events.push_back("deleg" + std::to_string(p - spec.pats.data()));
                model(*sub, nullptr, args, i, invocs, errors, out);
                // The delegation function passes on the exit status
                if (!out.ret)
                    out.status = EXIT_SUCCESS;
                out.ret = true;
                return;
            }
            if (!p && i == args.size()) {
                err(i, cli::ProcError::no_pattern_match);
                return fail();
            }
        }
        if (i == args.size())
            break;
        const std::string& arg = args[i];
        if (stop || arg.size() < 2 || arg[0] != '-') {
            ++i;
            if (mismatch)
                continue;
            if (!stop) {
                bool kw = false;
                for (const Pat& p : spec.pats)
                    kw = kw || has_keyword(p.seq, arg);
                if (kw && consume({ Node::Kind::kw, arg }, arg))
                    continue;
            }
            if (consume({ Node::Kind::val, "" }, arg))
                continue;
            err(i - 1, cli::ProcError::no_pattern_match);
            if (can_delegate())
                return fail();
            mismatch = true;
            continue;
        }
        // Option, or compound of options
        std::size_t at = i;
        std::size_t offset_2 = 1;
        bool is_long = (arg[1] == '-');
        bool quit = false;
        for (;;) {
            std::string form;
            if (is_long) {
                std::size_t eq = arg.find('=');
                offset_2 = (eq == std::string::npos ? arg.size() : eq);
                form = arg.substr(0, offset_2);
            }
            else {
                form = std::string("-") + arg[offset_2];
                ++offset_2;
            }
            const Opt* opt = nullptr;
            for (const Opt& o : spec.opts)
                for (const std::string& f : o.forms)
                    if (f == form)
                        opt = &o;
            bool in_pattern = false;
            for (const Pat& p : spec.pats)
                in_pattern = in_pattern || mentions(p.seq, canon(form), canon);
            if (!opt && !in_pattern) {
                err(at, cli::ProcError::bad_option);
                if (!mismatch || true) {
                    if (can_delegate())
                        quit = true;
                    mismatch = true;
                }
                break;
            }
            int takes = (opt ? opt->arg : 0);
            bool attached = (offset_2 < arg.size());
            if (attached && is_long) {
                if (takes == 0)
                    err(at, cli::ProcError::bad_option);
                else
                    invocs.push_back({ opt, true, arg.substr(offset_2 + 1), at });
                break;
            }
            if (attached && takes != 0) {
                invocs.push_back({ opt, true, arg.substr(offset_2), at });
                break;
            }
            if (attached && arg[offset_2] == '-') {
                err(at, cli::ProcError::bad_option);
                break;
            }
            if (takes == 2) {
                if (at + 1 == args.size()) {
                    err(at, cli::ProcError::bad_option);
                }
                else {
                    invocs.push_back({ opt, true, args[at + 1], at });
                    ++i;
                }
                break;
            }
            if (opt) {
                if (opt->shorted) {
                    out.events.push_back("o:" + opt->name);
                    out.ret = true;
                    out.status = EXIT_SUCCESS;
                    out.errors.clear();
                    return;
                }
                invocs.push_back({ opt, false, "", at });
                if (opt->stop)
                    stop = true;
            }
            if (in_pattern && !mismatch) {
                if (!consume({ Node::Kind::opt, canon(form) }, arg)) {
                    err(at, cli::ProcError::no_pattern_match);
                    if (can_delegate())
                        quit = true;
                    mismatch = true;
                    if (quit)
                        break;
                }
            }
            if (offset_2 == arg.size())
                break;
        }
        if (quit)
            return fail();
        ++i;
    }
    if (mismatch || own_error)
        return fail();
    run_options();
    const Pat* p = match();
    std::set<std::string> values;
    parses(prepend(p->seq, {}), consumed, 0, canon, "", values);
    if (own_error) { // bad option argument
        std::stable_sort(errors.begin(), errors.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
        out.errors = errors;
        out.ret = true;
        out.status = EXIT_FAILURE;
        return;
    }
    std::string lead = "p" + std::to_string(p - spec.pats.data()) + ":";
    if (values.size() > 1) {
        for (const std::string& v : values)
            out.alternatives.insert(lead + v);
        out.events.push_back("*");
    }
    else {
        out.events.push_back(lead + (values.empty() ? "?" : *values.begin()));
    }
    if (p->attr & cli::completing) {
        out.ret = true;
        out.status = p->ret;
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Running the real thing
// ---------------------------------------------------------------------------------------------------------------

struct ErrorHandler : cli::ErrorHandler {
    std::vector<std::pair<std::size_t, cli::ProcError>> errors;
    int calls = 0;
    void handle(core::Span<const ErrorEntry> e, int& exit_status) override
    {
        ++calls;
        for (const ErrorEntry& i : e) {
            MC_CHECK(*mc::current(), !i.error_message.empty(), "empty error message");
            errors.emplace_back(i.arg_index, i.error_code);
        }
        MC_CHECK(*mc::current(), exit_status != 0, "default exit status passed to error handler is success");
    }
};

struct Real {
    cli::Spec spec;
    std::vector<std::string> events;
    std::deque<std::string> strings; // A specification refers to, but does not own its strings

    auto own(std::string s) -> const std::string&
    {
        return strings.emplace_back(std::move(s));
    }
    auto sink(std::size_t k)
    {
        return [this, k](std::string s) { events.push_back("p" + std::to_string(k) + ":" + s); };
    }
};

void add_option(Real& r, const Opt& o)
{
    std::string forms_1;
    for (const std::string& f : o.forms)
        forms_1 += (forms_1.empty() ? "" : ", ") + f;
    const std::string& forms = r.own(forms_1);
    int attr = (o.shorted ? cli::short_circuit : 0) | (o.stop ? cli::further_args_are_values : 0);
    std::string name = o.name;
    if (o.arg == 0) {
        opt(forms, "", attr, r.spec, "Descr.", cli::exec([&r, name] { r.events.push_back("o:" + name); }));
    }
    else if (o.digits_only) {
        auto func = [&r, name](std::optional<int> v) {
            r.events.push_back(v ? "o:" + name + "=" + std::to_string(*v) : "o:" + name);
        };
        if (o.arg == 1)
            opt(forms, "[<val>]", attr, r.spec, "Descr.", cli::exec(std::move(func)));
        else
            opt(forms, "<val>", attr, r.spec, "Descr.", std::move(func));
    }
    else if (o.arg == 1) {
        opt(forms, "[<val>]", attr, r.spec, "Descr.", cli::exec([&r, name](std::optional<std::string> v) {
            r.events.push_back(v ? "o:" + name + "=" + *v : "o:" + name);
        }));
    }
    else {
        opt(forms, "<val>", attr, r.spec, "Descr.", cli::exec([&r, name](std::string_view v) {
            r.events.push_back("o:" + name + "=" + std::string(v));
        }));
    }
}

std::string show(const Outcome& o)
{
    std::string s;
    for (const std::string& e : o.events)
        s += e + " ";
    s += mc::str("ret=", o.ret, " status=", o.status);
    for (const auto& e : o.errors)
        s += mc::str(" err(", e.first, ",", int(e.second), ")");
    for (const std::string& e : o.alternatives)
        s += " alt:" + e;
    return s;
}

Outcome run(const Real& r_, Real& r, const std::vector<std::string>& args)
{
    (void)r_;
    Outcome o;
    r.events.clear();
    ErrorHandler eh;
    cli::Config config;
    config.error_handler = &eh;
    std::vector<const char*> argv;
    for (const std::string& a : args)
        argv.push_back(a.c_str());
    cli::Processor proc(int(argv.size()), argv.data(), r.spec, std::locale::classic(), config);
    o.ret = proc.process(o.status);
    o.events = r.events;
    o.errors = eh.errors;
    MC_CHECK(*mc::current(), eh.calls == (eh.errors.empty() ? 0 : 1), "error handler invoked ", eh.calls, " times");
    return o;
}

bool same(const Outcome& real, const Outcome& mod)
{
    if (real.ret != mod.ret || real.errors != mod.errors || real.events.size() != mod.events.size())
        return false;
    if (mod.ret && real.status != mod.status)
        return false;
    if (!mod.ret && real.status != -777)
        return false;
    for (std::size_t i = 0; i < real.events.size(); ++i) {
        if (mod.events[i] == "*") {
            if (!mod.alternatives.count(real.events[i]))
                return false;
        }
        else if (real.events[i] != mod.events[i])
            return false;
    }
    return true;
}

std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (std::size_t i = 1; i < v.size(); ++i)
        s += " \"" + mc::esc(v[i]) + "\"";
    return s;
}

// Enumerate all argument vectors
template<class F> void all_args(const std::vector<std::string>& alphabet, int max, F func)
{
    for (int n = 0; n <= max; ++n) {
        std::vector<std::size_t> idx(std::size_t(n), 0);
        for (;;) {
            std::vector<std::string> args{ "prog" };
            for (std::size_t i : idx)
                args.push_back(alphabet[i]);
            func(args);
            std::size_t k = idx.size();
            while (k > 0 && ++idx[k - 1] == alphabet.size())
                idx[--k] = 0;
            if (k == 0)
                break;
        }
    }
}

// Spec errors the reference finds
std::set<cli::SpecError> spec_errors(const ModelSpec& s)
{
    Canon canon = [&](const std::string& f) { return s.canon(f); };
    std::set<cli::SpecError> e;
    for (std::size_t i = 0; i < s.pats.size(); ++i) {
        if (!s.allow_pos && common_match(s.pats[i].seq, s.pats[i].seq, true, canon))
            e.insert(cli::SpecError::positional_ambiguity);
        for (std::size_t j = 0; j < s.pats.size(); ++j) {
            if (!s.allow_cross && j > i && common_match(s.pats[i].seq, s.pats[j].seq, false, canon))
                e.insert(cli::SpecError::cross_pattern_ambiguity);
            if (s.pats[i].deleg && proper_prefix(s.pats[i].seq, s.pats[j].seq, canon))
                e.insert(cli::SpecError::prefix_deleg_pattern);
        }
    }
    return e;
}

// Generator of patterns
Seq gen_seq(mc::Ctx& x, int leaves, int depth, const std::vector<Node>& alphabet, bool branch = false);
Node gen_elem(mc::Ctx& x, int leaves, int depth, const std::vector<Node>& alphabet, bool no_alt)
{
    int k = 0; // leaf, optional, rep, alt2, alt3
    if (leaves == 1)
        k = (depth == 0 ? 0 : x.choose(3));
    else
        k = 1 + x.choose(no_alt ? 2 : leaves >= 3 ? 4 : 3);
    if (k == 0)
        return alphabet[std::size_t(x.choose(int(alphabet.size())))];
    Node n;
    if (k <= 2) {
        n.kind = (k == 1 ? Node::Kind::optional : Node::Kind::rep);
        n.subs.push_back(gen_seq(x, leaves, depth - 1, alphabet));
        return n;
    }
    n.kind = Node::Kind::alt;
    int a = x.range(1, leaves - (k - 2));
    n.subs.push_back(gen_seq(x, a, depth - 1, alphabet, true));
    int b = leaves - a;
    if (k == 4) {
        int c = x.range(1, b - 1);
        n.subs.push_back(gen_seq(x, c, depth - 1, alphabet, true));
        b -= c;
    }
    n.subs.push_back(gen_seq(x, b, depth - 1, alphabet, true));
    return n;
}
Seq gen_seq(mc::Ctx& x, int leaves, int depth, const std::vector<Node>& alphabet, bool branch)
{
    Seq s;
    bool first = true;
    while (leaves > 0) {
        int n = 1;
        if (depth == 0)
            n = 1;
        else
            n = x.range(1, leaves);
        s.push_back(gen_elem(x, n, depth, alphabet, branch && first && n == leaves));
        leaves -= n;
        first = false;
    }
    return s;
}

Node kw(const char* s) { Node n; n.kind = Node::Kind::kw; n.sym = s; return n; }
Node op(const char* s) { Node n; n.kind = Node::Kind::opt; n.sym = s; return n; }
Node val() { Node n; n.kind = Node::Kind::val; return n; }
Node optional(Seq s) { Node n; n.kind = Node::Kind::optional; n.subs = { s }; return n; }
Node rep(Seq s) { Node n; n.kind = Node::Kind::rep; n.subs = { s }; return n; }
Node alt(std::vector<Seq> s) { Node n; n.kind = Node::Kind::alt; n.subs = s; return n; }

bool canonical(const Seq& s, bool& a_seen)
{
    for (const Node& n : s) {
        if (n.kind == Node::Kind::kw) {
            if (n.sym == "b" && !a_seen)
                return false;
            if (n.sym == "a")
                a_seen = true;
        }
        for (const Seq& t : n.subs)
            if (!canonical(t, a_seen))
                return false;
    }
    return true;
}

// Build the real specification, check its acceptance, then compare for all argument vectors
void explore(mc::Ctx& x, const ModelSpec& ms, const std::vector<std::string>& alphabet, int max_args, bool delegating = false, const ModelSpec* sub = nullptr)
{
    bool structural = false;
    for (const Pat& p : ms.pats)
        structural = structural || structurally_ambiguous(p.seq);
    std::string descr;
    for (const Pat& p : ms.pats)
        descr += (descr.empty() ? "\"" : ", \"") + text(p.seq, true) + "\"";
    MC_TRACE(x, "patterns: ", descr);
    Real r;
    Real r_sub; // unused sink
    cli::Spec sub_spec;
    if (sub) {
        Real& rr = r;
        // The options of the sub-specification log to the same list
        struct Swap {
            Real& r;
            cli::Spec& s;
            Swap(Real& r, cli::Spec& s) : r(r), s(s) { std::swap(r.spec, s); }
            ~Swap() { std::swap(r.spec, s); }
        } swap(rr, sub_spec);
        for (const Opt& o : sub->opts)
            add_option(rr, o);
        for (std::size_t i = 0; i < sub->pats.size(); ++i) {
            const Pat& p = sub->pats[i];
            auto t = all_types().find(type_of(p.seq));
            MC_CHECK(x, t != all_types().end(), "harness: no type");
            t->second(rr.spec, rr.own(text(p.seq, true)), p.attr, p.ret, rr.sink(i));
        }
    }
    for (const Opt& o : ms.opts)
        add_option(r, o);
    for (std::size_t i = 0; i < ms.pats.size(); ++i) {
        const Pat& p = ms.pats[i];
        if (p.deleg) {
            pat(r.own(text(p.seq, true)), p.attr, r.spec, "Lorem.", [&r, &sub_spec, i](const cli::CommandLine& command_line) {
                r.events.push_back("deleg" + std::to_string(i));
                return cli::process(command_line, sub_spec);
            });
            continue;
        }
        std::string type = (structural ? "" : type_of(p.seq));
        auto t = all_types().find(type);
        if (t == all_types().end())
            x.prune();
        t->second(r.spec, r.own(text(p.seq, true)), p.attr, p.ret, r.sink(i));
    }
    if (ms.allow_cross)
        r.spec.allow_cross_pattern_ambiguity();
    if (ms.allow_pos)
        r.spec.allow_pattern_internal_positional_ambiguity();
    (void)delegating;

    std::set<cli::SpecError> expected;
    if (structural)
        expected.insert(cli::SpecError::structural_ambiguity);
    else
        expected = spec_errors(ms);
    bool first = true;
    all_args(alphabet, max_args, [&](const std::vector<std::string>& args) {
        if (!first && !expected.empty())
            return;
        bool bad = false;
        cli::SpecError code = {};
        Outcome real;
        try {
            real = run(r, r, args);
        }
        catch (const cli::BadSpec& e) {
            bad = true;
            code = e.error_code();
        }
        x.step();
        if (first) {
            MC_CHECK(x, bad == !expected.empty(), "patterns ", descr, ": specification ", (bad ? "rejected" : "accepted"), " but should be ",
                     (bad ? "accepted" : "rejected"), bad ? mc::str(" (code ", int(code), ")") : mc::str(" (code ", int(*expected.begin()), ")"));
            if (bad)
                MC_CHECK(x, expected.count(code) == 1, "patterns ", descr, ": rejected with code ", int(code), ", expected ", int(*expected.begin()));
            first = false;
            if (bad)
                return;
        }
        Outcome mod;
        model(ms, sub, args, 1, {}, {}, mod);
        if (!ms.allow_pos)
            MC_CHECK(x, mod.alternatives.empty(), "patterns ", descr, " with args", join(args), ": structure of function arguments is not uniquely determined");
        MC_CHECK(x, same(real, mod), "patterns ", descr, " with args", join(args), ": got ", show(real), ", expected ", show(mod));
        x.outcome(mc::hash_str(show(mod)));
        x.state(mc::hash_str(descr + join(args)));
    });
    x.outcome(expected.empty() ? 1 : 2 + std::uint64_t(*expected.begin()));
}

const std::vector<Node>& leaves_all()
{
    static const std::vector<Node> v{ kw("a"), kw("b"), op("-x"), val() };
    return v;
}

mc::Scenario s_single("patterns-single", 32, [](mc::Ctx& x) {
    int leaves = x.range(0, 3);
    int depth = (leaves == 0 ? 0 : x.range(1, 2));
    Pat p;
    p.seq = gen_seq(x, leaves, depth, leaves_all());
    bool a_seen = false;
    if (!canonical(p.seq, a_seen))
        x.prune();
    if (!structurally_ambiguous(p.seq) && all_types().find(type_of(p.seq)) == all_types().end())
        x.prune();
    x.shard_point();
    ModelSpec ms;
    ms.pats.push_back(p);
    ms.allow_pos = x.choose(2);
    explore(x, ms, { "a", "b", "c", "-x" }, (x.thorough ? 5 : leaves == 3 ? 3 : 4));
});

mc::Scenario s_pair("patterns-pair", 32, [](mc::Ctx& x) {
    ModelSpec ms;
    static const std::vector<Node> alphabet{ kw("a"), op("-x"), val() };
    static const std::vector<Node> alphabet_2{ kw("a"), kw("b"), op("-x"), val() };
    for (int i = 0; i < 2; ++i) {
        int leaves = x.range(0, 2);
        Pat p;
        p.seq = gen_seq(x, leaves, leaves == 0 ? 0 : 1, (x.thorough ? alphabet_2 : alphabet));
        if (structurally_ambiguous(p.seq))
            x.prune();
        p.ret = i * 7;
        p.attr = (i == 1 ? int(cli::completing) : 0);
        ms.pats.push_back(p);
    }
    x.shard_point();
    ms.allow_pos = true;
    ms.allow_cross = x.choose(2);
    explore(x, ms, { "a", "c", "-x" }, (x.thorough ? 4 : 2));
});

// ---- options ----

std::vector<ModelSpec> option_specs()
{
    std::vector<ModelSpec> v;
    auto pats = [](std::vector<Seq> seqs) {
        std::vector<Pat> p;
        for (Seq& s : seqs) {
            Pat q;
            q.seq = std::move(s);
            q.ret = 5 + int(p.size());
            q.attr = (p.empty() ? 0 : int(cli::completing));
            p.push_back(q);
        }
        return p;
    };
    Opt f{ { "-f", "--foo" }, 0, false, false, "f", false };
    Opt o{ { "-o", "--out" }, 2, false, false, "o", false };
    Opt m{ { "--maybe", "-m" }, 1, false, false, "m", false };
    Opt n{ { "-n" }, 2, false, false, "n", true };
    Opt h{ { "-h", "--help" }, 0, true, false, "h", false };
    Opt stop{ { "--" }, 0, false, true, "stop", false };
    {
        ModelSpec s;
        s.opts = { f, o, m, h, stop };
        s.pats = pats({ { rep({ val() }) }, {} });
        v.push_back(s);
    }
    {
        ModelSpec s;
        s.opts = { f, n, h, stop };
        s.pats = pats({ { kw("a"), optional({ val() }) }, { op("-f"), val() } });
        v.push_back(s);
    }
    {
        ModelSpec s;
        s.opts = { m, f, stop };
        s.pats = pats({ { optional({ op("-x") }), alt({ { op("--foo") }, { kw("a") } }), optional({ rep({ val() }) }) } });
        v.push_back(s);
    }
    {
        ModelSpec s;
        s.opts = { o, n, h };
        s.pats = pats({ {}, { kw("a") } });
        v.push_back(s);
    }
    return v;
}

mc::Scenario s_options("options", 64, [](mc::Ctx& x) {
    static const std::vector<ModelSpec> specs = option_specs();
    const ModelSpec& ms = specs[std::size_t(x.choose(int(specs.size())))];
    // The first argument is chosen here in order to divide up the work
    static const std::vector<std::string> alphabet{ "a", "", "-", "-f", "--foo", "-ff", "-f-", "-o", "-o7", "--out", "--out=", "-m", "-mq", "--maybe=1",
                                                    "-n", "-n5", "-h", "--help", "--", "-fo", "-fh", "-u", "-fuf", "--foo=1", "-x", "-xf", "12" };
    std::vector<std::string> args{ "prog" };
    int n = x.range(0, x.thorough ? 4 : 3);
    for (int i = 0; i < n; ++i) {
        args.push_back(x.pick(alphabet));
        if (i == 1)
            x.shard_point();
    }
    if (n < 2)
        x.shard_point();
    static std::map<const ModelSpec*, std::unique_ptr<Real>> reals;
    std::unique_ptr<Real>& r = reals[&ms];
    if (!r) {
        r = std::make_unique<Real>();
        for (const Opt& o : ms.opts)
            add_option(*r, o);
        for (std::size_t i = 0; i < ms.pats.size(); ++i)
            all_types().at(type_of(ms.pats[i].seq))(r->spec, r->own(text(ms.pats[i].seq, true)), ms.pats[i].attr, ms.pats[i].ret, r->sink(i));
    }
    MC_TRACE(x, "args:", join(args));
    Outcome real = run(*r, *r, args);
    Outcome mod;
    model(ms, nullptr, args, 1, {}, {}, mod);
    MC_CHECK(x, same(real, mod), "specification ", &ms - specs.data(), " with args", join(args), ": got ", show(real), ", expected ", show(mod));
    x.outcome(mc::hash_str(show(mod)));
});

// ---- delegation ----

mc::Scenario s_deleg("delegation", 32, [](mc::Ctx& x) {
    static const std::vector<Node> alphabet{ kw("a"), kw("b"), op("-x") };
    ModelSpec ms;
    Opt f{ { "-f" }, 0, false, false, "f", false };
    Opt o{ { "-o" }, 2, false, false, "o", true };
    Opt h{ { "-h" }, 0, true, false, "h", false };
    ms.opts = { f, o };
    for (int i = 0; i < 2; ++i) {
        int leaves = x.range(0, 2);
        Pat p;
        p.seq = gen_seq(x, leaves, leaves == 0 ? 0 : 1, (i == 0 ? alphabet : leaves_all()));
        if (structurally_ambiguous(p.seq))
            x.prune();
        p.deleg = (i == 0);
        p.ret = i;
        ms.pats.push_back(p);
        if (i == 0 && x.choose(2) == 0)
            break;
    }
    bool a_seen = false;
    for (const Pat& p : ms.pats)
        if (!canonical(p.seq, a_seen))
            x.prune();
    x.shard_point();
    ms.allow_pos = true;
    ms.allow_cross = x.choose(2);
    ModelSpec sub;
    Opt g{ { "-g" }, 0, false, false, "g", false };
    sub.opts = { g, h };
    Pat p, q;
    p.seq = { kw("a"), optional({ val() }) };
    q.seq = { optional({ op("-x") }) };
    q.attr = cli::completing;
    q.ret = 9;
    sub.pats = { p, q };
    explore(x, ms, { "a", "b", "-x", "-f", "-oz", "-g", "-h" }, (x.thorough ? 3 : 2), true, &sub);
});


// ---- other admissible types of parameters of pattern functions ----

std::string iter(std::size_t n)
{
    std::string s = "{";
    for (std::size_t i = 0; i < n; ++i)
        s += ";";
    return s + "}";
}
std::string q(const std::string& s)
{
    return "<" + s + ">";
}

struct AltCase {
    Seq seq;
    std::function<void(Real&, const std::string& pattern, std::function<void(std::string)>)> add;
};

template<class F> AltCase alt_case(Seq seq, F func)
{
    return { seq, [func](Real& r, const std::string& pattern, std::function<void(std::string)> sink) {
        func(r.spec, pattern, sink);
    } };
}

#define ALT_CASE(SEQ, PARAMS, EXPR) \
    alt_case(Seq SEQ, [](cli::Spec& spec, const std::string& pattern, std::function<void(std::string)> sink) { \
        pat(pattern, cli::no_attributes, spec, "Lorem.", [sink] PARAMS { sink(EXPR); }); \
    })

std::vector<AltCase> alt_cases()
{
    std::vector<AltCase> v;
    // bool for optionality of something without parameters
    v.push_back(ALT_CASE(({ val(), optional({ op("-x") }) }), (std::string a, bool b), q(a) + (b ? "[+]" : "[]")));
    v.push_back(ALT_CASE(({ optional({ kw("a"), kw("b") }), optional({ val() }) }), (bool b, std::optional<std::string> a),
                         std::string(b ? "[+]" : "[]") + (a ? "[+" + q(*a) + "]" : "[]")));
    // std::monostate
    v.push_back(ALT_CASE(({ optional({ op("-x") }), val() }), (std::optional<std::monostate> b, std::string a), std::string(b ? "[+]" : "[]") + q(a)));
    v.push_back(ALT_CASE(({ alt({ { kw("a") }, { val() } }) }), (std::variant<std::monostate, std::string> a),
                         a.index() == 0 ? std::string("(0:)") : "(1:" + q(std::get<1>(a)) + ")"));
    v.push_back(ALT_CASE(({ alt({ { kw("a") }, { kw("b"), optional({ op("-x") }) }, { val(), val() } }) }),
                         (std::variant<std::monostate, bool, std::array<std::string, 2>> a),
                         a.index() == 0 ? std::string("(0:)") : a.index() == 1 ? std::string("(1:") + (std::get<1>(a) ? "[+])" : "[])")
                         : "(2:" + q(std::get<2>(a)[0]) + q(std::get<2>(a)[1]) + ")"));
    // std::size_t for repetition of something without parameters
    v.push_back(ALT_CASE(({ rep({ op("-x") }) }), (std::size_t n), iter(n)));
    v.push_back(ALT_CASE(({ optional({ rep({ op("-x") }) }), optional({ kw("a") }) }), (std::size_t n, bool b),
                         (n ? "[+" + iter(n) + "]" : "[]") + std::string(b ? "[+]" : "[]")));
    v.push_back(ALT_CASE(({ optional({ kw("a"), rep({ kw("b"), op("-x") }) }) }), (std::size_t n), (n ? "[+" + iter(n) + "]" : "[]")));
    v.push_back(ALT_CASE(({ rep({ val(), optional({ rep({ op("-x") }) }) }) }), (std::vector<std::pair<std::string, std::size_t>> w),
                         ([&] {
                             std::string s = "{";
                             for (const auto& e : w)
                                 s += q(e.first) + (e.second ? "[+" + iter(e.second) + "]" : "[]") + ";";
                             return s + "}";
                         }())));
    v.push_back(ALT_CASE(({ rep({ val(), rep({ op("-x") }) }) }), (std::vector<std::pair<std::string, std::vector<std::monostate>>> w),
                         ([&] {
                             std::string s = "{";
                             for (const auto& e : w)
                                 s += q(e.first) + iter(e.second.size()) + ";";
                             return s + "}";
                         }())));
    // std::size_t for alternatives without parameters
    v.push_back(ALT_CASE(({ alt({ { kw("a") }, { kw("b") }, { op("-x") } }) }), (std::size_t k), "(" + std::to_string(k) + ":)"));
    v.push_back(ALT_CASE(({ rep({ val(), alt({ { op("-x") }, { kw("a") } }) }) }), (std::vector<std::pair<std::string, std::size_t>> w),
                         ([&] {
                             std::string s = "{";
                             for (const auto& e : w)
                                 s += q(e.first) + "(" + std::to_string(e.second) + ":);";
                             return s + "}";
                         }())));
    v.push_back(ALT_CASE(({ optional({ alt({ { kw("a") }, { kw("b"), kw("b") } }) }), optional({ val() }) }), (std::optional<std::size_t> k, std::optional<std::string> a),
                         (k ? "[+(" + std::to_string(*k) + ":)]" : "[]") + (a ? "[+" + q(*a) + "]" : "[]")));
    v.push_back(ALT_CASE(({ rep({ alt({ { kw("a") }, { op("-x") } }) }) }), (std::vector<std::size_t> w),
                         ([&] {
                             std::string s = "{";
                             for (std::size_t e : w)
                                 s += "(" + std::to_string(e) + ":);";
                             return s + "}";
                         }())));
    // std::vector for optional repetition, and bare types for tuples of one
    v.push_back(ALT_CASE(({ optional({ rep({ val() }) }) }), (std::vector<std::string> w),
                         ([&] {
                             std::string s = (w.empty() ? "[" : "[+{");
                             for (const auto& e : w)
                                 s += q(e) + ";";
                             return s + (w.empty() ? "]" : "}]");
                         }())));
    v.push_back(ALT_CASE(({ optional({ kw("a"), rep({ val(), op("-x") }), kw("b") }) }), (std::vector<std::string_view> w),
                         ([&] {
                             std::string s = (w.empty() ? "[" : "[+{");
                             for (const auto& e : w)
                                 s += q(std::string(e)) + ";";
                             return s + (w.empty() ? "]" : "}]");
                         }())));
    v.push_back(ALT_CASE(({ rep({ val(), optional({ kw("a"), val() }) }) }), (std::vector<std::pair<std::string, std::optional<std::string>>> w),
                         ([&] {
                             std::string s = "{";
                             for (const auto& e : w)
                                 s += q(e.first) + (e.second ? "[+" + q(*e.second) + "]" : "[]") + ";";
                             return s + "}";
                         }())));
    return v;
}

mc::Scenario s_alt_types("param-types", 17, [](mc::Ctx& x) {
    static const std::vector<AltCase> cases = alt_cases();
    const AltCase& c = cases[std::size_t(x.choose(int(cases.size())))];
    x.shard_point();
    ModelSpec ms;
    Pat p;
    p.seq = c.seq;
    ms.pats = { p };
    Real r;
    c.add(r, r.own(text(c.seq, true)), r.sink(0));
    std::string descr = text(c.seq, true);
    all_args({ "a", "b", "c", "-x" }, (x.thorough ? 6 : 5), [&](const std::vector<std::string>& args) {
        Outcome real = run(r, r, args);
        Outcome mod;
        model(ms, nullptr, args, 1, {}, {}, mod);
        x.step();
        MC_CHECK(x, same(real, mod), "pattern \"", descr, "\" with args", join(args), ": got ", show(real), ", expected ", show(mod));
        x.outcome(mc::hash_str(show(mod)));
    });
});

// ---- values that cannot be parsed ----

mc::Scenario s_values("bad-values", 8, [](mc::Ctx& x) {
    int kind = x.choose(3);
    static const std::vector<std::string> alphabet{ "1", "77", "x", "1x", "", "99999999999999999999", " 1", "-n", "-n9", "-nq" };
    int n = x.range(0, 3);
    std::vector<std::string> args{ "prog" };
    for (int i = 0; i < n; ++i) {
        args.push_back(x.pick(alphabet));
        if (i == 0)
            x.shard_point();
    }
    if (n == 0)
        x.shard_point();
    cli::Spec spec;
    std::vector<std::string> events;
    int v = -5;
    opt("-n", "<num>", cli::no_attributes, spec, "Descr.", cli::assign_c(v, [](int v) { return v != 9; }));
    int cell = -1;
    std::vector<int> cells;
    if (kind == 0)
        pat("<v>", cli::no_attributes, spec, "Lorem.", [&](int w) { events.push_back(std::to_string(w)); });
    else if (kind == 1)
        pat("<v> <w>", cli::completing, spec, "Lorem.", [&](int w, std::string u) { events.push_back(std::to_string(w) + u); return 3; });
    else
        pat("[<v>...]", cli::no_attributes, spec, "Lorem.", std::tie(cells));
    (void)cell;
    ErrorHandler eh;
    cli::Config config;
    config.error_handler = &eh;
    std::vector<const char*> argv;
    for (const std::string& a : args)
        argv.push_back(a.c_str());
    int status = -777;
    bool ret = cli::process(int(argv.size()), argv.data(), spec, status, std::locale::classic(), config);
    // Expectation
    auto number = [](const std::string& s) { return s == "1" || s == "77"; };
    std::vector<std::pair<std::size_t, cli::ProcError>> errs;
    std::vector<std::pair<std::size_t, std::string>> positional;
    int ev = -5;
    for (std::size_t i = 1; i < args.size(); ++i) {
        if (args[i].starts_with("-n")) {
            std::size_t at = i;
            std::string value;
            if (args[i] == "-n") {
                if (i + 1 == args.size()) {
                    errs.emplace_back(i, cli::ProcError::bad_option);
                    continue;
                }
                value = args[++i];
            }
            else {
                value = args[i].substr(2);
            }
            if (number(value))
                ev = std::stoi(value);
            else
                errs.emplace_back(at, cli::ProcError::bad_option_arg);
            continue;
        }
        positional.emplace_back(i, args[i]);
    }
    std::size_t want = (kind == 0 ? 1 : kind == 1 ? 2 : positional.size());
    bool match = true;
    if (positional.size() > want) {
        errs.emplace_back(positional[want].first, cli::ProcError::no_pattern_match);
        match = false;
    }
    else if (positional.size() < want) {
        errs.emplace_back(args.size(), cli::ProcError::no_pattern_match);
        match = false;
    }
    if (match) {
        // Arguments of a pattern are parsed only when the pattern matched and nothing was wrong on the level of options
        bool bad_opt = false;
        for (const auto& e : errs)
            bad_opt = bad_opt || e.second == cli::ProcError::bad_option;
        if (!bad_opt) {
            for (std::size_t k = 0; k < positional.size(); ++k)
                if (!(kind == 1 && k == 1) && !number(positional[k].second))
                    errs.emplace_back(positional[k].first, cli::ProcError::bad_pattern_arg);
        }
    }
    std::stable_sort(errs.begin(), errs.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    std::string where = mc::str("kind ", kind, " args", join(args), ": ");
    MC_CHECK(x, eh.errors == errs, where, "errors differ: got ", eh.errors.size(), ", expected ", errs.size());
    MC_CHECK(x, v == ev, where, "option variable is ", v, ", expected ", ev);
    if (!errs.empty()) {
        MC_CHECK(x, ret && status == EXIT_FAILURE, where, "not reported as failure");
        MC_CHECK(x, events.empty() && cells.empty(), where, "pattern action carried out in spite of error");
    }
    else {
        MC_CHECK(x, ret == (kind == 1), where, "wrong completion");
        MC_CHECK(x, status == (kind == 1 ? 3 : -777), where, "wrong exit status ", status);
        if (kind < 2) {
            MC_CHECK(x, events.size() == 1, where, "pattern function not invoked once");
            MC_CHECK(x, events[0] == (kind == 0 ? positional[0].second : positional[0].second + positional[1].second), where, "wrong arguments");
        }
        else {
            std::vector<int> expect;
            for (const auto& e : positional)
                expect.push_back(std::stoi(e.second));
            MC_CHECK(x, cells == expect, where, "wrong values assigned");
        }
    }
    x.outcome(mc::mix(errs.size(), positional.size()));
});

// ---- syntax of patterns ----

// Reference parser over tokens. Returns false on syntax error.
struct RefParser {
    const std::vector<std::string>& tok;
    const std::vector<bool>& space; // whether token is preceded by space
    std::size_t i = 0;
    bool bad = false;

    bool is(const char* t) const { return i < tok.size() && tok[i] == t; }
    bool starts() const
    {
        return i < tok.size() && (tok[i] == "a" || tok[i] == "<v>" || tok[i] == "-x" || tok[i] == "[" || tok[i] == "(");
    }

    // Returns elements of sequence. `alts` tells the number of branches
    std::vector<Seq> alternatives()
    {
        std::vector<Seq> v;
        auto add = [&](Seq s) {
            // Directly nested alternatives are merged
            if (s.size() == 1 && s[0].kind == Node::Kind::alt)
                v.insert(v.end(), s[0].subs.begin(), s[0].subs.end());
            else
                v.push_back(std::move(s));
        };
        Seq first = juxt();
        if (bad)
            return v;
        if (!is("|")) {
            v.push_back(first);
            return v;
        }
        add(first);
        while (is("|")) {
            ++i;
            Seq s = juxt();
            if (bad)
                return v;
            add(s);
        }
        return v;
    }
    static Seq collapse(std::vector<Seq> v)
    {
        if (v.size() == 1)
            return v[0];
        Node n;
        n.kind = Node::Kind::alt;
        n.subs = std::move(v);
        return { n };
    }
    Seq juxt()
    {
        Seq s = repetition();
        while (!bad && starts()) {
            if (!space[i]) {
                bad = true;
                break;
            }
            Seq t = repetition();
            s.insert(s.end(), t.begin(), t.end());
        }
        return s;
    }
    Seq repetition()
    {
        Seq s = element();
        while (!bad && is("...")) {
            ++i;
            Node n;
            n.kind = Node::Kind::rep;
            n.subs = { s };
            s = { n };
        }
        return s;
    }
    Seq element()
    {
        if (!starts()) {
            bad = true;
            return {};
        }
        std::string t = tok[i++];
        if (t == "a")
            return { kw("a") };
        if (t == "<v>")
            return { val() };
        if (t == "-x")
            return { op("-x") };
        std::vector<Seq> v = alternatives();
        if (bad)
            return {};
        if (!is(t == "[" ? "]" : ")")) {
            bad = true;
            return {};
        }
        ++i;
        Seq s = collapse(std::move(v));
        if (t == "(")
            return s;
        Node n;
        n.kind = Node::Kind::optional;
        n.subs = { s };
        return { n };
    }
    bool parse(Seq& s)
    {
        if (tok.empty())
            return true;
        std::vector<Seq> v = alternatives();
        if (bad || i != tok.size())
            return false;
        if (v.size() > 1)
            return false; // Unparenthesized alternatives
        s = v[0];
        return true;
    }
};

mc::Scenario s_syntax("pattern-syntax", 64, [](mc::Ctx& x) {
    static const std::vector<std::string> tokens{ "a", "<v>", "[", "]", "(", ")", "...", "|", "-x" };
    int n = x.range(0, x.thorough ? 7 : 6);
    std::vector<std::string> tok;
    std::vector<bool> space;
    int nosp = x.choose(n + 1); // 0: spaces everywhere, k: no space in front of k'th token
    std::string pattern;
    int depth = 0;
    for (int i = 0; i < n; ++i) {
        std::size_t k = std::size_t(x.choose(n > 5 ? int(tokens.size()) - 1 : int(tokens.size())));
        tok.push_back(tokens[k]);
        bool sp = (nosp != i + 1);
        if (!sp && i > 0) {
            // Gluing these together would make different tokens
            bool word = (tok[std::size_t(i)] == "a" || tok[std::size_t(i)] == "-x");
            bool word_2 = (tok[std::size_t(i - 1)] == "a");
            if (word && word_2)
                x.prune();
        }
        space.push_back(sp);
        if (sp)
            pattern += " ";
        pattern += tokens[k];
        depth += (tokens[k] == "[" || tokens[k] == "(") - (tokens[k] == "]" || tokens[k] == ")");
        if (i == 2)
            x.shard_point();
    }
    if (n < 3)
        x.shard_point();
    if (n > 4 && depth != 0)
        x.prune(); // Unbalanced brackets only for shorter patterns
    RefParser ref{ tok, space };
    Seq seq;
    bool good = ref.parse(seq);
    MC_TRACE(x, "pattern: \"", pattern, "\"");
    cli::Spec spec;
    pat(pattern, cli::completing, spec, "Lorem.", cli::no_action);
    spec.allow_pattern_internal_positional_ambiguity();
    ModelSpec ms;
    ms.allow_pos = true;
    Pat p;
    p.seq = seq;
    p.attr = cli::completing;
    ms.pats = { p };
    std::set<cli::SpecError> expected;
    if (!good)
        expected = { cli::SpecError::bad_pattern_syntax };
    else if (structurally_ambiguous(seq))
        expected = { cli::SpecError::structural_ambiguity };
    bool stop = false;
    all_args({ "a", "c" }, (n >= 6 ? 2 : 3), [&](const std::vector<std::string>& args) {
        if (stop)
            return;
        ErrorHandler eh;
        cli::Config config;
        config.error_handler = &eh;
        std::vector<const char*> argv;
        for (const std::string& a : args)
            argv.push_back(a.c_str());
        Outcome real;
        try {
            cli::Processor proc(int(argv.size()), argv.data(), spec, std::locale::classic(), config);
            real.ret = proc.process(real.status);
        }
        catch (const cli::BadSpec& e) {
            MC_CHECK(x, !expected.empty(), "pattern \"", pattern, "\" rejected (", e.what(), ")");
            MC_CHECK(x, expected.count(e.error_code()), "pattern \"", pattern, "\" rejected with code ", int(e.error_code()), " (", e.what(), ")");
            stop = true;
            x.outcome(std::uint64_t(e.error_code()));
            return;
        }
        MC_CHECK(x, expected.empty(), "pattern \"", pattern, "\" accepted");
        Outcome mod;
        model(ms, nullptr, args, 1, {}, {}, mod);
        x.step();
        MC_CHECK(x, real.status == mod.status && eh.errors == mod.errors, "pattern \"", pattern, "\" with args", join(args), ": got status ", real.status,
                 ", expected ", show(mod));
        x.outcome(mc::hash_str(show(mod)));
    });
});

// ---- invalid specifications ----

mc::Scenario s_bad_spec("invalid-specs", 1, [](mc::Ctx& x) {
    using E = cli::SpecError;
    auto reject = [&](std::set<E> expected, auto func) {
        cli::Spec spec;
        func(spec);
        const char* argv[] = { "prog" };
        bool bad = false;
        E code = {};
        struct Handler : cli::ErrorHandler {
            void handle(core::Span<const ErrorEntry>, int&) override {}
        } eh;
        cli::Config config;
        config.error_handler = &eh;
        try {
            int status = 0;
            cli::Processor proc(1, argv, spec, std::locale::classic(), config);
            proc.process(status);
        }
        catch (const cli::BadSpec& e) {
            bad = true;
            code = e.error_code();
        }
        x.step();
        MC_CHECK(x, bad == !expected.empty(), "specification ", (bad ? "rejected" : "accepted"), mc::str(" code ", int(code)));
        if (bad)
            MC_CHECK(x, expected.count(code), "specification rejected with code ", int(code));
    };
    int arg = x.choose(3); // none, required, optional
    const char* arg_1 = std::array{ "", "<v>", "[<v>]" }[std::size_t(arg)];
    int attr = x.choose(16);
    int action = x.choose(6);
    int ref = x.choose(3); // option mentioned by pattern: no, by first form, by second form
    MC_TRACE(x, "arg=", arg, " attr=", attr, " action=", action, " ref=", ref);
    std::set<E> expected;
    if (attr & 8)
        expected.insert(E::bad_option_attr);
    if (arg != 0 && (attr & 3) != 0)
        expected.insert(E::option_arg_not_allowed);
    // 0: no action, 1: exec without argument, 2: assign, 3: raise flag, 4: exec with argument, 5: assign to r-value
    bool allow = (action == 2 || action == 4 || action == 3);
    if (arg != 0 && !allow)
        expected.insert(E::option_func_mismatch);
    if (ref != 0 && (arg != 0 || (attr & 3) != 0))
        expected.insert(E::bad_option_ref);
    if (action == 5)
        x.prune();
    reject(expected, [&](cli::Spec& spec) {
        static int target;
        static bool flag;
        switch (action) {
            case 0: opt("-x, --yy", arg_1, attr, spec, "D.", cli::no_action); break;
            case 1: opt("-x, --yy", arg_1, attr, spec, "D.", cli::exec([] {})); break;
            case 2: opt("-x, --yy", arg_1, attr, spec, "D.", cli::assign(target)); break;
            case 3: opt("-x, --yy", arg_1, attr, spec, "D.", cli::raise_flag(flag)); break;
            case 4: opt("-x, --yy", arg_1, attr, spec, "D.", [](int) {}); break;
        }
        if (ref == 1)
            pat("[-x]", cli::no_attributes, spec, "P.", cli::no_action);
        if (ref == 2)
            pat("[--yy]", cli::no_attributes, spec, "P.", cli::no_action);
    });
    if (arg == 0 && attr == 0 && action == 0 && ref == 0) {
        for (const char* forms : { "", "x", "-x -y", "-x | -y", "[-x]", "-x...", "-x,", ",", "<x>", "-x, a", "-", "- x", "(" })
            reject({ E::bad_option_forms_syntax }, [&](cli::Spec& s) { opt(forms, "", 0, s, "D.", cli::no_action); });
        for (const char* forms : { "-x", "--", "--x", " -x,--y , -z ", "-x, --a-b-c", "(-x), -y", "-=", "-." })
            reject({}, [&](cli::Spec& s) { opt(forms, "", 0, s, "D.", cli::no_action); });
        for (const char* a : { "x", "-x", "<x> <y>", "<x>...", "[<x>...]", "[[<x>]]", "<x>|<y>", "<x>,<y>", "<x", "[<x>", "[]" })
            reject({ E::bad_option_arg_syntax }, [&](cli::Spec& s) { opt("-x", a, 0, s, "D.", [](int) {}); });
        for (const char* a : { "<x>", " [ <x> ] ", "<>", "(<x>)", "< x y >" })
            reject({}, [&](cli::Spec& s) { opt("-x", a, 0, s, "D.", [](int) {}); });
        const char* forms[] = { "-x", "--x", "-y", "--xy", "-x, --xy" };
        for (const char* a : forms)
            for (const char* b : forms) {
                auto set = [](std::string s) {
                    std::set<std::string> v;
                    std::size_t k = s.find(", ");
                    v.insert(s.substr(0, k));
                    if (k != std::string::npos)
                        v.insert(s.substr(k + 2));
                    return v;
                };
                bool reuse = false;
                for (const std::string& f : set(a))
                    reuse = reuse || set(b).count(f);
                reject(reuse ? std::set<E>{ E::option_form_reuse } : std::set<E>{}, [&](cli::Spec& s) {
                    opt(a, "", 0, s, "D.", cli::no_action);
                    opt(b, "", 0, s, "D.", cli::no_action);
                });
            }
        for (int attr : { 0, 1, 2, 3, 8 })
            reject((attr & ~int(cli::completing)) ? std::set<E>{ E::bad_pattern_attr } : std::set<E>{}, [&](cli::Spec& s) {
                pat("", attr, s, "P.", cli::no_action);
            });
        // Mismatching signatures
        auto mis = [&](const char* pattern, auto func) {
            reject({ E::pattern_func_mismatch }, [&](cli::Spec& s) { pat(pattern, 0, s, "P.", func); });
        };
        mis("<v>", [] {});
        mis("", [](int) {});
        mis("<v> <v>", [](int) {});
        mis("a", [](int) {});
        mis("[<v>]", [](int) {});
        mis("<v>", [](std::optional<int>) {});
        mis("<v>...", [](std::optional<int>) {});
        mis("<v>...", [](int) {});
        mis("[<v>]", [](std::vector<int>) {});
        mis("[<v>]", [](bool) {});
        mis("<v>...", [](std::size_t) {});
        mis("[<v>...]", [](std::size_t) {});
        mis("[a]", [](std::size_t) {});
        mis("a...", [](bool) {});
        mis("(a | b)", [](bool) {});
        mis("(a | <v>)", [](std::size_t) {});
        mis("(a | <v>)", [](std::variant<std::monostate>) {});
        mis("(a | <v>)", [](std::variant<std::monostate, int, int>) {});
        mis("(a | <v>)", [](std::variant<int, std::monostate>) {});
        mis("(<v> <v>)...", [](std::vector<int>) {});
        mis("(<v> <v>)...", [](std::vector<std::tuple<int, int, int>>) {});
        mis("[<v> <v>]", [](std::optional<std::array<int, 3>>) {});
        mis("[<v> [<v>]]", [](std::optional<std::pair<int, int>>) {});
        // Delegating pattern with value slot
        reject({ E::bad_pattern_syntax }, [&](cli::Spec& s) { pat("a [<v>]", 0, s, "P.", [](const cli::CommandLine&) { return 0; }); });
    }
    x.outcome(expected.size());
});

// ---- wide characters, string holder ----

mc::Scenario s_wide("wide", 16, [](mc::Ctx& x) {
    static const std::vector<std::string> alphabet{ "a", "b", "cc", "-f", "--foo=é", "--foo", "-fX", "-q", "--", "", "é" };
    int n = x.range(0, x.thorough ? 4 : 3);
    std::vector<std::string> args{ "prog" };
    for (int i = 0; i < n; ++i) {
        args.push_back(x.pick(alphabet));
        if (i == 0)
            x.shard_point();
    }
    if (n == 0)
        x.shard_point();
    std::locale locale("C.UTF-8");
    struct Result {
        std::vector<std::string> events;
        bool ret = false;
        int status = -777;
        std::vector<std::pair<std::size_t, cli::ProcError>> errors;
    };
    auto process = [&](auto tag) {
        using C = decltype(tag);
        using sv = std::basic_string_view<C>;
        Result r;
        std::vector<sv> views;
        std::vector<std::string_view> narrow_views;
        std::vector<std::string> heads;
        cli::BasicStringHolder<C> holder;
        {
            cli::BasicSpec<C> spec;
            opt("-f, --foo", "[<v>]", cli::no_attributes, spec, "D.", cli::exec([&](std::optional<sv> v) {
                heads.push_back(v ? "o:f=" : "o:f");
                views.push_back(v ? *v : sv{});
            }));
            opt(cli::stop_tag, spec);
            pat("a [<v>]", cli::no_attributes, spec, "P.", [&](std::optional<std::string_view> v) {
                heads.push_back(v ? "p0:+" : "p0:-");
                views.push_back({});
                if (v)
                    narrow_views.push_back(*v);
            });
            pat("-q <v> <v>", cli::completing, spec, "P.", [&](sv v, std::string w) {
                heads.push_back("p1:" + w + ":");
                views.push_back(v);
                return 4;
            });
            struct Handler : cli::BasicErrorHandler<C> {
                std::vector<std::pair<std::size_t, cli::ProcError>> errors;
                void handle(core::Span<const typename cli::BasicErrorHandler<C>::ErrorEntry> e, int&) override
                {
                    for (const auto& i : e)
                        errors.emplace_back(i.arg_index, i.error_code);
                }
            } eh;
            std::vector<std::string> copy = args;
            std::vector<const char*> argv;
            for (const std::string& a : copy)
                argv.push_back(a.c_str());
            cli::BasicConfig<C> config;
            config.error_handler = &eh;
            config.string_holder = &holder;
            r.ret = cli::process(int(argv.size()), argv.data(), spec, r.status, locale, config);
            r.errors = eh.errors;
            for (std::string& a : copy)
                std::fill(a.begin(), a.end(), '#'); // String views must not depend on the original arguments
        }
        for (std::size_t i = 0; i < heads.size(); ++i) {
            std::string s = heads[i];
            if constexpr (std::is_same_v<C, char>) {
                s += views[i];
            }
            else {
                for (wchar_t c : views[i]) {
                    if (c < 0x80)
                        s += char(c);
                    else {
                        s += char(0xC0 | (c >> 6));
                        s += char(0x80 | (c & 0x3F));
                    }
                }
            }
            r.events.push_back(s);
        }
        for (std::string_view v : narrow_views)
            r.events.back() += v;
        return r;
    };
    Result a = process(char());
    Result b = process(wchar_t());
    // Reference
    ModelSpec ms;
    Opt f{ { "-f", "--foo" }, 1, false, false, "f", false };
    Opt stop{ { "--" }, 0, false, true, "stop", false };
    ms.opts = { f, stop };
    Pat p, q;
    p.seq = { kw("a"), optional({ val() }) };
    q.seq = { op("-q"), val(), val() };
    q.attr = cli::completing;
    q.ret = 4;
    ms.pats = { p, q };
    Outcome mod;
    model(ms, nullptr, args, 1, {}, {}, mod);
    std::vector<std::string> expect;
    for (std::string e : mod.events) {
        if (e == "o:stop")
            continue;
        if (e.starts_with("p0:"))
            e = (e == "p0:[]" ? std::string("p0:-") : "p0:+" + e.substr(6, e.size() - 8));
        else if (e.starts_with("p1:")) {
            std::size_t k = e.find("><");
            e = "p1:" + e.substr(k + 2, e.size() - k - 3) + ":" + e.substr(4, k - 4);
        }
        expect.push_back(e);
    }
    auto check = [&](const Result& r, const char* what) {
        std::string got;
        for (const std::string& e : r.events)
            got += e + " ";
        MC_CHECK(x, r.events == expect && r.errors == mod.errors && r.ret == mod.ret && (r.ret ? r.status == mod.status : r.status == -777), what, " args",
                 join(args), ": got ", got, " ret=", r.ret, " status=", r.status, ", expected ", show(mod));
    };
    check(a, "narrow");
    check(b, "wide");
    x.outcome(mc::hash_str(show(mod)));
});

} // unnamed namespace
