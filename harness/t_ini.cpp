// C01 / C02: the INI parser.  Expectations of C01 are known by construction: the text is assembled from lines whose
// meaning the grammar fixes.  C02 compares the four ways of supplying the same bytes and watches every buffer.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <inih/ini.h>
#include <vck.hpp>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif

// 0 multiline, 1 bom, 2 inline, 3 stop, 4 lineno
static bool const ml = INI_ALLOW_MULTILINE, bom_ok = INI_ALLOW_BOM, inl = INI_ALLOW_INLINE_COMMENTS, stop = INI_STOP_ON_FIRST_ERROR,
                  lno = INI_HANDLER_LINENO;
static int const maxline = INI_MAX_LINE;
static std::string const prefixes = INI_INLINE_COMMENT_PREFIXES;

struct Ev
{
    std::string s, n, v;
    int line;
    bool operator==(Ev const& o) const { return s == o.s && n == o.n && v == o.v && (!lno || line == o.line); }
};
struct Out
{
    std::vector<Ev> ev;
    int rc = 0;
    bool operator==(Out const& o) const { return rc == o.rc && ev == o.ev; }
};

static std::string show(std::string const& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') {
            o += "\\n";
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    return o.size() > 900 ? o.substr(0, 900) + "..." : o;
}
static std::string show(Out const& o)
{
    std::string r = "rc=" + std::to_string(o.rc);
    for (auto const& e : o.ev) {
        r += " [" + show(e.s) + "]" + show(e.n) + "=<" + show(e.v) + ">" + (lno ? "@" + std::to_string(e.line) : "");
    }
    return r.size() > 700 ? r.substr(0, 700) + "..." : r;
}

struct Rec
{
    Out out;
    std::set<int> const* reject = nullptr; // indices of events the handler refuses
    std::string bad;
    long cap = 1000000;
};

#if INI_HANDLER_LINENO
static int handler(void* u, char const* s, char const* n, char const* v, int line)
#else
static int handler(void* u, char const* s, char const* n, char const* v)
#endif
{
    auto* r = static_cast<Rec*>(u);
#if !INI_HANDLER_LINENO
    int const line = 0;
#endif
    if (!s || !n || !v) {
        r->bad = "null string handed to the handler";
        return 1;
    }
    if (std::strlen(s) > 49) {
        r->bad = "section longer than its limit";
    }
    if (static_cast<long>(std::strlen(n)) >= maxline || static_cast<long>(std::strlen(v)) >= maxline) {
        r->bad = "name or value longer than a line";
    }
    int const i = static_cast<int>(r->out.ev.size());
    if (i > r->cap) {
        std::printf("@VIOL no-termination\t%s\tmore events than lines\n", vck::st().cur.c_str());
        std::printf("@STATS {\"evaluations\":1,\"distinct\":1,\"violations\":1,\"samples\":[],\"stats\":{}}\n");
        std::fflush(stdout);
        std::_Exit(1);
    }
    r->out.ev.push_back({s, n, v, line});
    return !(r->reject && r->reject->count(i));
}

// ---- the four sources -----------------------------------------------------------------------------------------
struct MemReader
{
    std::string const* t;
    std::size_t pos = 0;
    int maxnum = 0;
    bool bad = false;
    long calls = 0;
    unsigned char fill = 0xAA;
};
static char* mem_read(char* buf, int num, void* st)
{
    auto* m = static_cast<MemReader*>(st);
    ++m->calls;
    m->maxnum = std::max(m->maxnum, num);
    if (num < 2 || num > maxline) {
        m->bad = true;
        return nullptr;
    }
    // a reader may use the whole buffer it was offered: every byte of it must be writable, and what the reader
    // leaves behind the terminating NUL must not matter
    std::memset(buf, m->fill, static_cast<std::size_t>(num));
    if (m->pos >= m->t->size()) {
        return nullptr;
    }
    int k = 0;
    while (k < num - 1 && m->pos < m->t->size()) {
        char c = (*m->t)[m->pos++];
        buf[k++] = c;
        if (c == '\n') {
            break;
        }
    }
    buf[k] = '\0';
    return buf;
}

static std::string g_file;

static void write_file(std::string const& text)
{
    int fd = ::open(g_file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::size_t o = 0;
    while (fd >= 0 && o < text.size()) {
        ssize_t k = ::write(fd, text.data() + o, text.size() - o);
        if (k <= 0) {
            break;
        }
        o += static_cast<std::size_t>(k);
    }
    if (fd < 0 || o != text.size()) {
        std::fprintf(stderr, "cannot write scratch file\n");
        std::_Exit(70);
    }
    ::close(fd);
}

static int open_fds()
{
    int n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (d && ::readdir(d)) {
        ++n;
    }
    if (d) {
        ::closedir(d);
    }
    return n;
}

enum Source { NAMED, FILEP, STRING, STREAM };
static char const* const source_name[] = {"file name", "open file", "string", "line reader"};

static Rec parse(Source src, std::string const& text, std::set<int> const* reject, unsigned char fill = 0xAA)
{
    Rec r;
    r.reject = reject;
    r.cap = static_cast<long>(text.size()) + 2;
    switch (src) {
    case NAMED: {
        int const before = open_fds();
        r.out.rc = ini_parse(g_file.c_str(), handler, &r);
        if (open_fds() != before) {
            r.bad = "the file was left open";
        }
        break;
    }
    case FILEP: {
        FILE* f = std::fopen(g_file.c_str(), "r");
        r.out.rc = ini_parse_file(f, handler, &r);
        if (fcntl(fileno(f), F_GETFD) < 0) {
            r.bad = "the caller's file was closed";
        } else {
            std::fclose(f);
        }
        break;
    }
    case STRING: {
        // exact-size heap copy: reading past the terminator is visible to the address sanitizer
        char* p = static_cast<char*>(std::malloc(text.size() + 1));
        std::memcpy(p, text.data(), text.size());
        p[text.size()] = '\0';
        r.out.rc = ini_parse_string(p, handler, &r);
        if (std::memcmp(p, text.data(), text.size()) != 0 || p[text.size()] != '\0') {
            r.bad = "the caller's string was modified";
        }
        std::free(p);
        break;
    }
    case STREAM: {
        MemReader m {&text};
        m.fill = fill;
        r.out.rc = ini_parse_stream(reinterpret_cast<ini_reader>(mem_read), &m, handler, &r);
        if (m.bad) {
            r.bad = "the reader was offered a buffer size outside [2, INI_MAX_LINE]";
        }
        break;
    }
    }
    return r;
}

// ---- C01: texts assembled from lines of known meaning --------------------------------------------------------------
struct TextCase
{
    std::string text;
    Out want;
    std::set<int> reject;
    int kinds = 0;
};

static std::string blanks(vck::Rng& r, int lo, int hi)
{
    static char const ws[] = {' ', ' ', ' ', '\t', '\t', '\v', '\f', '\r'};
    std::string s;
    int const n = r.range(lo, hi);
    for (int i = 0; i < n; ++i) {
        s += ws[r.below(r.coin(0.9) ? 5 : 8)];
    }
    return s;
}

static bool comment_pair(std::string const& s)
{
    // a blank followed by an inline comment character
    for (std::size_t i = 1; i < s.size(); ++i) {
        if (std::isspace(static_cast<unsigned char>(s[i - 1])) && prefixes.find(s[i]) != std::string::npos) {
            return true;
        }
    }
    return false;
}

// printable text without leading/trailing blanks, without characters in `no`
static std::string word(vck::Rng& r, int lo, int hi, std::string const& no, bool utf8 = true)
{
    static std::string const alpha = "abcXYZ019_-.+*/!@#$%^&()[]{}<>=:;,'\"|~`? \t  ";
    int const n = r.range(lo, hi);
    std::string s;
    while (static_cast<int>(s.size()) < n) {
        char c = alpha[r.below(alpha.size())];
        if (r.coin(0.4)) {
            c = static_cast<char>('a' + r.below(26));
        } else if (utf8 && r.coin(0.05)) {
            c = static_cast<char>(128 + r.below(128));
        }
        if (no.find(c) != std::string::npos) {
            continue;
        }
        s += c;
    }
    for (std::size_t i = 0; i < s.size(); ++i) {
        bool const sp = std::isspace(static_cast<unsigned char>(s[i]));
        if (sp && (i == 0 || i + 1 == s.size())) {
            s[i] = 'q';
        }
        if (i && std::isspace(static_cast<unsigned char>(s[i - 1])) && prefixes.find(s[i]) != std::string::npos) {
            s[i] = 'z';
        }
    }
    return s;
}

static TextCase make_text(vck::Rng& r, bool allow_reject)
{
    TextCase t;
    std::string section, prev;
    int line = 0;
    int err = 0;
    bool stopped = false;
    int const nlines = r.coin(0.1) ? r.range(0, 2) : r.range(1, 14);
    double const pbad = r.coin(0.5) ? 0.0 : 0.15;
    double const prej = allow_reject && r.coin(0.2) ? 0.15 : 0;
    bool const crlf = r.coin(0.15);
    if (bom_ok && r.coin(0.15)) {
        t.text = "\xEF\xBB\xBF";
        t.kinds |= 1;
    }
    auto emit = [&](std::string const& n, std::string const& v) {
        if (stopped) {
            return;
        }
        int const i = static_cast<int>(t.want.ev.size());
        t.want.ev.push_back({section, n, v, line});
        if (r.coin(prej)) {
            t.reject.insert(i);
            if (!err) {
                err = line;
            }
        }
    };
    auto malformed = [&] {
        if (!err && !stopped) {
            err = line;
        }
        t.kinds |= 2;
    };
    for (int l = 0; l < nlines; ++l) {
        ++line;
        if (stop && err) {
            stopped = true;
        }
        std::size_t const bomlen = (line == 1 && (t.kinds & 1)) ? 3 : 0;
        int const room = maxline - 1 - 1 - (crlf ? 1 : 0) - static_cast<int>(bomlen); // content bytes before the newline
        std::string s;
        // continuation lines need a name in force; other lines must not be indented then
        bool const cont_possible = ml && !prev.empty();
        int kind = r.range(0, 99);
        auto lead = [&] { return cont_possible ? std::string() : (r.coin(0.3) ? blanks(r, 1, 4) : std::string()); };
        std::function<void()> apply = [] {};
        for (int attempt = 0;; ++attempt) {
            apply = [] {};
            if (attempt > 20) {
                s = "";
                break;
            }
            int const longw = std::max(1, std::min(room - 6, r.coin(0.15) ? 160 : (r.coin(0.3) ? 45 : 8)));
            if (r.coin(pbad)) {
                int const m = r.range(0, 3);
                std::string w = word(r, 1, longw, "=:[;#");
                if (m == 0) {
                    s = lead() + w;
                } else if (m == 1) {
                    s = lead() + "[" + word(r, 1, longw, "]=:;#");
                } else if (m == 2 && inl) {
                    s = lead() + w + " " + prefixes[r.below(prefixes.size())] + " x=1";
                } else if (m == 3 && inl) {
                    s = lead() + "[" + word(r, 1, longw, "]=:;#") + " " + prefixes[r.below(prefixes.size())] + "]";
                } else {
                    s = lead() + w;
                }
                apply = [&] { malformed(); };
            } else if (kind < 12) { // section
                std::string name = word(r, r.coin(0.05) ? 0 : 1, std::min(49, longw), "];#");
                s = lead() + "[" + name + "]" + (r.coin(0.3) ? blanks(r, 0, 3) + word(r, 0, 5, "") : "");
                apply = [&, name] {
                    if (!stopped) {
                        section = name;
                        prev.clear();
                    }
                    t.kinds |= 4;
                };
            } else if (kind < 22) { // comment
                s = (r.coin(0.3) ? blanks(r, 1, 4) : "") + (r.coin() ? ";" : "#") + word(r, 0, longw, "") + blanks(r, 0, 2);
                t.kinds |= 8;
            } else if (kind < 30) { // blank
                s = blanks(r, 0, 5);
            } else if (kind < 45 && cont_possible) {
                std::string v = word(r, 1, longw, "");
                if (v[0] == ';' || v[0] == '#') {
                    v[0] = 'c';
                }
                s = blanks(r, 1, 4) + v + blanks(r, 0, 3);
                apply = [&, v] {
                    emit(prev, v);
                    t.kinds |= 16;
                };
            } else {
                std::string n = word(r, r.coin(0.02) ? 0 : 1, std::min(longw, r.coin(0.1) ? 150 : 49), "=:");
                if (!n.empty() && (n[0] == ';' || n[0] == '#' || n[0] == '[')) {
                    n[0] = 'n';
                }
                if (n.empty() && cont_possible) {
                    n = "k";
                }
                std::string v = word(r, r.coin(0.1) ? 0 : 1, longw, "");
                bool inline_c = false;
                std::string tail = blanks(r, 0, 3);
                std::string pre = blanks(r, 0, 3);
                // a comment character directly after blanks would start a comment
                if (!v.empty() && !pre.empty() && prefixes.find(v[0]) != std::string::npos) {
                    if (inl) {
                        v[0] = 'v';
                    }
                }
                if (r.coin(0.25)) {
                    std::string c = std::string(1, prefixes[r.below(prefixes.size())]) + word(r, 0, 8, "");
                    std::string b = blanks(r, 1, 3);
                    if (inl) {
                        tail = b + c + blanks(r, 0, 2);
                        inline_c = true;
                    } else {
                        // without inline comments all of it belongs to the value
                        v = v.empty() ? c : v + b + c;
                        while (!v.empty() && std::isspace(static_cast<unsigned char>(v.back()))) {
                            v.pop_back();
                        }
                        tail = blanks(r, 0, 2);
                    }
                }
                if (inl && comment_pair(v)) {
                    continue;
                }
                s = lead() + n + blanks(r, 0, 3) + (r.coin(0.8) ? "=" : ":") + pre + v + tail;
                if (n.empty() && s.find_first_not_of(" \t\v\f\r") == std::string::npos) {
                    continue;
                }
                bool const inc = inline_c;
                apply = [&, n, v, inc] {
                    emit(n, v);
                    if (!stopped) {
                        prev = n.substr(0, 49);
                    }
                    t.kinds |= 32 | (inc ? 64 : 0);
                };
            }
            if (s.find('\n') != std::string::npos) {
                continue;
            }
            if (static_cast<int>(s.size()) <= room) {
                break;
            }
        }
        apply();
        t.text += s;
        if (l + 1 < nlines || r.coin(0.7)) {
            t.text += crlf ? "\r\n" : "\n";
        }
    }
    t.want.rc = err;
    return t;
}

static void check_c01(TextCase const& t)
{
    write_file(t.text);
    for (Source s : {NAMED, FILEP, STRING, STREAM}) {
        Rec r = parse(s, t.text, &t.reject);
        if (!r.bad.empty()) {
            vck::fail("contract", r.bad + " (" + source_name[s] + ") text <" + show(t.text) + ">");
        }
        if (!(r.out == t.want)) {
            vck::fail(
                    r.out.rc != t.want.rc && r.out.ev == t.want.ev ? "result-code" : "pairs",
                    std::string(source_name[s]) + ": text <" + show(t.text) + "> gave " + show(r.out) + " but the grammar says " + show(t.want));
        }
    }
}

// lines exactly at the limits
static void boundary_cases()
{
    vck::cases("limits", 1, [&](long, vck::Rng& rng) {
        for (int content = std::max(4, maxline - 12); content <= maxline - 2; ++content) {
            for (int form = 0; form < 5; ++form) {
                TextCase t;
                std::string body;
                if (form == 0) { // long value
                    std::string v(static_cast<std::size_t>(content - 2), 'v');
                    v.back() = 'w';
                    body = "a=" + v;
                    t.want.ev = {{"", "a", v, 1}, {"", "next", "1", 2}};
                } else if (form == 1) { // long name
                    std::string n(static_cast<std::size_t>(content - 2), 'n');
                    body = n + "=5";
                    t.want.ev = {{"", n, "5", 1}, {"", "next", "1", 2}};
                } else if (form == 2) { // blanks up to the limit
                    body = "a=1" + std::string(static_cast<std::size_t>(content - 3), ' ');
                    t.want.ev = {{"", "a", "1", 1}, {"", "next", "1", 2}};
                } else if (form == 3) {
                    body = ";" + std::string(static_cast<std::size_t>(content - 1), '=');
                    t.want.ev = {{"", "next", "1", 2}};
                } else {
                    body = std::string(static_cast<std::size_t>(content), 'm');
                    t.want.rc = 1;
                    if (!stop) {
                        t.want.ev = {{"", "next", "1", 2}};
                    }
                }
                if (static_cast<int>(body.size()) != content) {
                    continue;
                }
                t.text = body + "\nnext=1";
                check_c01(t);
                vck::eval(vck::hash_str(t.text));
                vck::stat("lines_at_limit");
            }
        }
        for (int len = 40; len <= 49 && len + 12 < maxline; ++len) {
            TextCase t;
            std::string s(static_cast<std::size_t>(len), 's');
            s[0] = 'S';
            s.back() = 'E';
            t.text = "[" + s + "]\nk=v\n";
            t.want.ev = {{s, "k", "v", 2}};
            check_c01(t);
            TextCase u;
            u.text = s + "=v1\n  v2\n";
            u.want.ev = {{"", s, "v1", 1}};
            if (ml) {
                u.want.ev.push_back({"", s, "v2", 2});
            } else {
                u.want.rc = 2;
            }
            check_c01(u);
            vck::eval(vck::hash_str(t.text));
            vck::eval(vck::hash_str(u.text));
        }
        // many lines: numbering and order must not depend on the count
        TextCase t;
        int const n = rng.range(3000, 70000);
        for (int i = 1; i <= n; ++i) {
            if (i % 7 == 0) {
                t.text += "# c\n";
            } else {
                t.text += "k" + std::to_string(i) + "=" + std::to_string(i * 3) + "\n";
                t.want.ev.push_back({"", "k" + std::to_string(i), std::to_string(i * 3), i});
            }
        }
        t.text += "bad\n";
        t.want.rc = n + 1;
        check_c01(t);
        vck::eval(vck::hash_str(t.text));
        vck::stat_max("max.lines_in_one_text", n + 1);
        // missing file
        Rec r;
        int rc = ini_parse((g_file + ".does-not-exist").c_str(), handler, &r);
        if (rc != -1 || !r.out.ev.empty()) {
            vck::fail("open-error", vck::fmt("parsing a missing file gave %d", rc));
        }
    });
}

// ---- C02 -----------------------------------------------------------------------------------------------------------
static std::string hostile(vck::Rng& r)
{
    std::string t;
    int const mode = r.range(0, 7);
    auto rnd = [&](int n, std::string const& from) {
        std::string s;
        for (int i = 0; i < n; ++i) {
            s += from[r.below(from.size())];
        }
        return s;
    };
    std::string const marks = "[]=:;# \t\n\r\v\fa\"\\";
    if (mode == 0) {
        int const n = r.range(0, 600);
        for (int i = 0; i < n; ++i) {
            t += static_cast<char>(r.below(256));
        }
    } else if (mode == 1) {
        t = rnd(r.range(0, 500), marks);
    } else if (mode == 2) { // long lines around every limit
        int const k = r.range(1, 5);
        static int const sizes[] = {1, 47, 48, 49, 50, 51, 52, 99, 198, 199, 200, 201, 202, 398, 399, 400, 1000, 5000};
        for (int i = 0; i < k; ++i) {
            int n = sizes[r.below(18)] + r.range(-1, 1);
            if (r.coin(0.3)) {
                n = maxline + r.range(-4, 4);
            }
            n = std::max(n, 0);
            std::string w = rnd(n, r.coin() ? "a" : "ab \t;#");
            switch (r.range(0, 5)) {
            case 0: t += "[" + w + "]"; break;
            case 1: t += w + "=" + rnd(r.range(0, 300), "v "); break;
            case 2: t += "k=" + w; break;
            case 3: t += "  " + w; break;
            case 4: t += "[" + w; break;
            default: t += w;
            }
            t += r.coin(0.9) ? "\n" : "";
            if (r.coin(0.5)) {
                t += "n=1\n more\n";
            }
        }
    } else if (mode == 3) {
        t = make_text(r, false).text;
        int const k = r.range(1, 8);
        for (int i = 0; i < k && !t.empty(); ++i) {
            std::size_t const p = r.below(t.size());
            switch (r.range(0, 3)) {
            case 0: t[p] = static_cast<char>(r.below(256)); break;
            case 1: t.erase(p, r.below(8)); break;
            case 2: t.insert(p, rnd(r.range(1, 60), marks)); break;
            default: t.insert(p, 1, '\0');
            }
        }
    } else if (mode == 4) { // all blank, or blanks at the very start
        t = rnd(r.range(0, 450), " \t\r\v\f") + rnd(r.range(0, 3), marks);
    } else if (mode == 5) { // byte-order marks, partial ones
        static char const* const b[] = {"\xEF", "\xEF\xBB", "\xEF\xBB\xBF", "\xEF\xBB\xBF\xEF\xBB\xBF", "\xEF\xBB\xBF \xEF"};
        t = b[r.below(5)] + rnd(r.range(0, 30), marks);
    } else if (mode == 6) { // continuation stress
        std::string n = rnd(r.range(0, 120), "n");
        t = n + "=" + rnd(r.range(0, 40), "v;") + "\n";
        for (int i = r.range(0, 5); i > 0; --i) {
            t += " " + rnd(r.range(0, 260), marks) + "\n";
        }
    } else {
        t = rnd(r.range(0, 100), std::string("\0\n=[a ", 6));
    }
    return t;
}

static void check_c02(std::string const& t, std::uint64_t h)
{
    bool const nul = t.find('\0') != std::string::npos;
    write_file(t);
    Rec a = parse(NAMED, t, nullptr);
    Rec b = parse(FILEP, t, nullptr);
    Rec c = parse(STREAM, t, nullptr, 0xAA);
    Rec d = parse(STREAM, t, nullptr, '=');
    Rec e = nul ? c : parse(STRING, t, nullptr);
    for (auto const* r : {&a, &b, &c, &d, &e}) {
        if (!r->bad.empty()) {
            vck::fail("contract", r->bad + " text <" + show(t) + ">");
        }
    }
    if (!(a.out == b.out) || !(a.out == c.out) || !(a.out == e.out)) {
        vck::fail("sources-disagree", "text <" + show(t) + ">: file name " + show(a.out) + " | open file " + show(b.out) + " | line reader "
                                              + show(c.out) + " | string " + show(e.out));
    }
    if (!(c.out == d.out)) {
        vck::fail("stale-bytes", "text <" + show(t) + ">: the result depends on bytes behind the end of the line: " + show(c.out) + " | " + show(d.out));
    }
    long nl = 1;
    for (char ch : t) {
        nl += ch == '\n';
    }
    long const maxl = nl + static_cast<long>(t.size()) / (maxline - 1) + 1;
    if (static_cast<long>(a.out.ev.size()) > maxl || a.out.rc > maxl || a.out.rc < 0) {
        vck::fail("result-range", "text <" + show(t) + "> " + show(a.out));
    }
    // whatever is reported is a piece of the input, cut at a limit at worst
    for (auto const& ev : a.out.ev) {
        for (auto const* s : {&ev.s, &ev.n, &ev.v}) {
            if (!s->empty() && t.find(*s) == std::string::npos) {
                vck::fail("invented-text", "text <" + show(t) + "> reported <" + show(*s) + "> which the input does not contain");
            }
        }
    }
    vck::eval(h, !a.out.ev.empty() || a.out.rc != 0);
    vck::stat("pairs_reported", static_cast<double>(a.out.ev.size()));
    vck::stat("texts_with_error", a.out.rc != 0);
    vck::stat("texts_with_nul", nul);
    vck::stat("texts_with_overlong_line", static_cast<long>(t.size()) > 0 && [&] {
        long run = 0, best = 0;
        for (char ch : t) {
            run = ch == '\n' ? 0 : run + 1;
            best = std::max(best, run);
        }
        return best > maxline - 2;
    }());
}

int main(int argc, char** argv)
{
    vck::init(argc, argv);
    g_file = vck::st().dir + "/t.ini";
    auto const& mode = vck::st().opt["mode"];
    if (mode == "c01") {
        long const n = vck::st().thorough ? 60000 : 2500;
        vck::cases("text", n, [&](long, vck::Rng& r) {
            TextCase t = make_text(r, true);
            check_c01(t);
            vck::eval(vck::hash_str(t.text), !t.want.ev.empty());
            vck::stat("pairs_expected", static_cast<double>(t.want.ev.size()));
            vck::stat("texts_with_bom", (t.kinds & 1) != 0);
            vck::stat("texts_malformed", t.want.rc != 0);
            vck::stat("texts_with_continuation", (t.kinds & 16) != 0);
            vck::stat("texts_with_inline_comment", (t.kinds & 64) != 0);
            vck::stat("texts_with_refused_pair", !t.reject.empty());
            if (t.want.ev.size() > 3) {
                vck::sample("<" + show(t.text) + "> => " + show(t.want));
            }
        });
        boundary_cases();
    } else {
        long const n = vck::st().thorough ? 200000 : std::atol(vck::st().opt["n"].empty() ? "4000" : vck::st().opt["n"].c_str());
        vck::cases("bytes", n, [&](long, vck::Rng& r) {
            std::string t = hostile(r);
            check_c02(t, vck::hash_str(t));
            if (t.size() > 60) {
                vck::sample("<" + show(t.substr(0, 200)) + ">");
            }
        });
        vck::cases("section-limit", 120, [&](long i, vck::Rng&) {
            // truncated, never stored past the limit, and nothing else is disturbed
            std::string s(static_cast<std::size_t>(i + 1), 's');
            for (std::size_t k = 0; k < s.size(); ++k) {
                s[k] = static_cast<char>('a' + k % 26);
            }
            if (static_cast<int>(s.size()) + 3 > maxline - 1) {
                return;
            }
            std::string t = "[" + s + "]\n" + s + "=v\n more\n";
            check_c02(t, vck::hash_str(t));
            Rec r = parse(STRING, t, nullptr);
            if (r.out.ev.empty()) {
                vck::fail("truncation", "nothing reported for <" + show(t) + ">");
                return;
            }
            for (auto const& e : r.out.ev) {
                if (e.s != s.substr(0, 49) && e.s != s) {
                    vck::fail("truncation", "section <" + s + "> reported as <" + e.s + ">");
                }
                if (e.n != s.substr(0, 49) && e.n != s) {
                    vck::fail("truncation", "name <" + s + "> reported as <" + e.n + ">");
                }
            }
        });
        vck::cases("special-files", 1, [&](long, vck::Rng&) {
            Rec r;
            int const before = open_fds();
            int rc = ini_parse("/nonexistent/x.ini", handler, &r);
            if (rc != -1) {
                vck::fail("open-error", vck::fmt("missing file gave %d", rc));
            }
            (void)ini_parse(vck::st().dir.c_str(), handler, &r); // a directory can be opened but not read
            (void)ini_parse("/dev/null", handler, &r);
            if (open_fds() != before) {
                vck::fail("fd-leak", "a file was left open");
            }
            vck::eval(1);
        });
    }
    return vck::finish();
}
