// PDI + decl_hdf5 stand-in: interprets the project's own YAML specification and writes real HDF5 files.
#include <mpi.h>

#include <pdi.h>

#include <cctype>
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <vector>

#include <hdf5.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vshim.hpp>
#include <vshim_pdi.hpp>

namespace vshim {

PdiLog& pdi_log()
{
    static PdiLog l;
    return l;
}

namespace {

struct PdiError : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// ------------------------------------------------------------------ YAML subset
struct Node
{
    enum Kind { null, scalar, seq, map } kind = null;
    std::string s;
    std::vector<Node> items;
    std::vector<std::pair<std::string, Node>> fields;
    Node const* get(std::string const& k) const
    {
        for (auto const& f : fields) {
            if (f.first == k) {
                return &f.second;
            }
        }
        return nullptr;
    }
};

struct Line
{
    int indent;
    std::string text;
};

class Yaml
{
    std::vector<Line> m_lines;
    std::size_t m_pos = 0;

    static std::string strip(std::string const& t)
    {
        std::size_t a = 0;
        std::size_t b = t.size();
        while (a < b && std::isspace(static_cast<unsigned char>(t[a]))) {
            ++a;
        }
        while (b > a && std::isspace(static_cast<unsigned char>(t[b - 1]))) {
            --b;
        }
        return t.substr(a, b - a);
    }

    static std::string uncomment(std::string const& t)
    {
        char q = 0;
        for (std::size_t i = 0; i < t.size(); ++i) {
            if (q) {
                if (t[i] == q) {
                    q = 0;
                }
            } else if (t[i] == '\'' || t[i] == '"') {
                q = t[i];
            } else if (t[i] == '#' && (i == 0 || std::isspace(static_cast<unsigned char>(t[i - 1])))) {
                return t.substr(0, i);
            }
        }
        return t;
    }

    static Node flow(std::string const& t, std::size_t& i)
    {
        auto ws = [&] {
            while (i < t.size() && std::isspace(static_cast<unsigned char>(t[i]))) {
                ++i;
            }
        };
        ws();
        Node n;
        if (i < t.size() && t[i] == '{') {
            n.kind = Node::map;
            ++i;
            for (;;) {
                ws();
                if (i < t.size() && t[i] == '}') {
                    ++i;
                    break;
                }
                Node const k = flow_scalar(t, i, true);
                ws();
                if (i >= t.size() || t[i] != ':') {
                    throw PdiError("yaml: expected ':' in " + t);
                }
                ++i;
                Node v = flow(t, i);
                n.fields.emplace_back(k.s, v);
                ws();
                if (i < t.size() && t[i] == ',') {
                    ++i;
                }
                if (i >= t.size()) {
                    throw PdiError("yaml: unterminated map " + t);
                }
            }
            return n;
        }
        if (i < t.size() && t[i] == '[') {
            n.kind = Node::seq;
            ++i;
            for (;;) {
                ws();
                if (i < t.size() && t[i] == ']') {
                    ++i;
                    break;
                }
                n.items.push_back(flow(t, i));
                ws();
                if (i < t.size() && t[i] == ',') {
                    ++i;
                }
                if (i >= t.size()) {
                    throw PdiError("yaml: unterminated sequence " + t);
                }
            }
            return n;
        }
        return flow_scalar(t, i, false);
    }

    static Node flow_scalar(std::string const& t, std::size_t& i, bool key)
    {
        Node n;
        n.kind = Node::scalar;
        if (i < t.size() && (t[i] == '\'' || t[i] == '"')) {
            char const q = t[i++];
            while (i < t.size() && t[i] != q) {
                n.s += t[i++];
            }
            ++i;
            return n;
        }
        int depth = 0; // $a[0] inside an unquoted scalar
        while (i < t.size()) {
            char const c = t[i];
            if (c == '[' || (c == '{' && i > 0 && t[i - 1] == '$')) {
                ++depth;
            } else if ((c == ']' || c == '}') && depth > 0) {
                --depth;
            } else if (depth == 0 && (c == ',' || c == ']' || c == '}' || (key && c == ':'))) {
                break;
            }
            n.s += c;
            ++i;
        }
        n.s = strip(n.s);
        return n;
    }

    static Node value(std::string const& t)
    {
        if (t.empty() || t == "~" || t == "null") {
            return Node {};
        }
        if (t[0] == '{' || t[0] == '[' || t[0] == '\'' || t[0] == '"') {
            std::size_t i = 0;
            return flow(t, i);
        }
        Node n;
        n.kind = Node::scalar;
        n.s = t;
        return n;
    }

    static std::size_t key_end(std::string const& t)
    {
        char q = 0;
        int depth = 0;
        for (std::size_t i = 0; i < t.size(); ++i) {
            char const c = t[i];
            if (q) {
                if (c == q) {
                    q = 0;
                }
            } else if (c == '\'' || c == '"') {
                q = c;
            } else if (c == '{' || c == '[') {
                ++depth;
            } else if (c == '}' || c == ']') {
                --depth;
            } else if (depth == 0 && c == ':' && (i + 1 == t.size() || std::isspace(static_cast<unsigned char>(t[i + 1])))) {
                return i;
            }
        }
        return std::string::npos;
    }

    static std::string unquote(std::string const& k)
    {
        std::string const s = strip(k);
        if (s.size() >= 2 && (s[0] == '\'' || s[0] == '"') && s.back() == s[0]) {
            return s.substr(1, s.size() - 2);
        }
        return s;
    }

    Node block(int indent)
    {
        Node n;
        if (m_pos >= m_lines.size() || m_lines[m_pos].indent < indent) {
            return n;
        }
        int const ind = m_lines[m_pos].indent;
        if (m_lines[m_pos].text[0] == '-' && (m_lines[m_pos].text.size() == 1 || m_lines[m_pos].text[1] == ' ')) {
            n.kind = Node::seq;
            while (m_pos < m_lines.size() && m_lines[m_pos].indent == ind && m_lines[m_pos].text[0] == '-') {
                std::string const body = strip(m_lines[m_pos].text.substr(1));
                if (body.empty()) {
                    ++m_pos;
                    n.items.push_back(block(ind + 1));
                } else if (body[0] != '{' && body[0] != '[' && key_end(body) != std::string::npos) {
                    int const off = static_cast<int>(m_lines[m_pos].text.find_first_not_of(" \t", 1));
                    m_lines[m_pos].indent = ind + off;
                    m_lines[m_pos].text = body;
                    n.items.push_back(block(ind + 1));
                } else {
                    ++m_pos;
                    n.items.push_back(value(body));
                }
            }
            return n;
        }
        n.kind = Node::map;
        while (m_pos < m_lines.size() && m_lines[m_pos].indent == ind) {
            std::string const t = m_lines[m_pos].text;
            std::size_t const k = key_end(t);
            if (k == std::string::npos) {
                throw PdiError("yaml: key expected in '" + t + "'");
            }
            std::string const key = unquote(t.substr(0, k));
            std::string const rest = strip(t.substr(k + 1));
            ++m_pos;
            Node v;
            if (!rest.empty()) {
                v = value(rest);
            } else if (
                    m_pos < m_lines.size()
                    && (m_lines[m_pos].indent > ind || (m_lines[m_pos].indent == ind && m_lines[m_pos].text[0] == '-'))) {
                v = block(m_lines[m_pos].indent);
            }
            n.fields.emplace_back(key, v);
        }
        if (m_pos < m_lines.size() && m_lines[m_pos].indent > ind) {
            throw PdiError("yaml: bad indentation at '" + m_lines[m_pos].text + "'");
        }
        return n;
    }

public:
    Node parse(std::string const& doc)
    {
        std::istringstream is(doc);
        std::string l;
        while (std::getline(is, l)) {
            if (l.rfind("---", 0) == 0 || l.rfind("...", 0) == 0) {
                continue;
            }
            std::string const u = uncomment(l);
            std::size_t const a = u.find_first_not_of(' ');
            if (a == std::string::npos || strip(u).empty()) {
                continue;
            }
            // continuation of an unterminated flow collection
            m_lines.push_back(Line {static_cast<int>(a), strip(u)});
        }
        // join lines while brackets are open
        std::vector<Line> j;
        int depth = 0;
        for (auto const& ln : m_lines) {
            bool const cont = depth > 0;
            char q = 0;
            for (char const c : ln.text) {
                if (q) {
                    if (c == q) {
                        q = 0;
                    }
                } else if (c == '\'' || c == '"') {
                    q = c;
                } else if (c == '{' || c == '[') {
                    ++depth;
                } else if (c == '}' || c == ']') {
                    --depth;
                }
            }
            if (cont) {
                j.back().text += ' ' + ln.text;
            } else {
                j.push_back(ln);
            }
        }
        m_lines = j;
        m_pos = 0;
        Node n = block(0);
        if (m_pos != m_lines.size()) {
            throw PdiError("yaml: trailing content at '" + m_lines[m_pos].text + "'");
        }
        return n;
    }
};

// ------------------------------------------------------------------ state
struct Shared
{
    void* p = nullptr;
    int access = 0;
};

struct State
{
    std::unique_ptr<Node> conf;
    std::map<std::string, std::vector<char>> meta; // persistent copies of metadata
    std::map<std::string, Shared> shared;
};

std::map<int, State>& states()
{
    static std::map<int, State> s;
    return s;
}
State& state()
{
    auto it = states().find(tl_rank);
    if (it == states().end()) {
        throw PdiError("PDI used before PDI_init");
    }
    return it->second;
}

std::size_t elem_size(std::string const& t)
{
    if (t == "int") {
        return sizeof(int);
    }
    if (t == "double") {
        return sizeof(double);
    }
    if (t == "float") {
        return sizeof(float);
    }
    if (t == "char") {
        return 1;
    }
    if (t == "int64") {
        return 8;
    }
    if (t == "MPI_Comm") {
        return sizeof(MPI_Comm);
    }
    throw PdiError("unknown type " + t);
}

long eval(std::string const& e);

struct Type
{
    std::string base;
    std::vector<long> dims; // empty: scalar
    std::size_t bytes() const
    {
        std::size_t n = elem_size(base);
        for (long const d : dims) {
            n *= static_cast<std::size_t>(d);
        }
        return n;
    }
};

std::vector<long> eval_list(Node const* n)
{
    std::vector<long> v;
    if (!n) {
        return v;
    }
    if (n->kind == Node::seq) {
        for (auto const& i : n->items) {
            v.push_back(eval(i.s));
        }
    } else if (n->kind == Node::scalar) {
        v.push_back(eval(n->s));
    }
    return v;
}

Type type_of(Node const& d)
{
    Type t;
    if (d.kind == Node::scalar) {
        t.base = d.s;
        return t;
    }
    Node const* ty = d.get("type");
    if (!ty) {
        throw PdiError("type without 'type'");
    }
    if (ty->s != "array") {
        t.base = ty->s;
        return t;
    }
    Node const* st = d.get("subtype");
    if (!st) {
        throw PdiError("array without subtype");
    }
    t.base = st->s;
    t.dims = eval_list(d.get("size"));
    return t;
}

Node const* find_decl(std::string const& name, bool* is_meta)
{
    State& s = state();
    if (Node const* m = s.conf->get("metadata")) {
        if (Node const* d = m->get(name)) {
            *is_meta = true;
            return d;
        }
    }
    if (Node const* m = s.conf->get("data")) {
        if (Node const* d = m->get(name)) {
            *is_meta = false;
            return d;
        }
    }
    return nullptr;
}

// bytes currently readable for name
std::vector<char> read_meta(std::string const& name)
{
    State& s = state();
    auto it = s.meta.find(name);
    if (it == s.meta.end()) {
        throw PdiError("no value for ${" + name + "}");
    }
    return it->second;
}

long meta_int(std::string const& name, std::vector<long> const& idx)
{
    bool is_meta = false;
    Node const* d = find_decl(name, &is_meta);
    if (!d) {
        throw PdiError("undeclared ${" + name + "}");
    }
    std::string base = d->kind == Node::scalar ? d->s : (d->get("subtype") ? d->get("subtype")->s : d->get("type")->s);
    auto const b = read_meta(name);
    std::size_t const es = elem_size(base);
    long const i = idx.empty() ? 0 : idx[0];
    if (i < 0 || static_cast<std::size_t>(i + 1) * es > b.size()) {
        throw PdiError("index out of range in $" + name);
    }
    if (base == "int") {
        int v;
        std::memcpy(&v, b.data() + (i * es), es);
        return v;
    }
    if (base == "double") {
        double v;
        std::memcpy(&v, b.data() + (i * es), es);
        return static_cast<long>(v);
    }
    throw PdiError("not an integer: $" + name);
}

std::string meta_string(std::string const& name)
{
    bool is_meta = false;
    Node const* d = find_decl(name, &is_meta);
    if (!d) {
        throw PdiError("undeclared ${" + name + "}");
    }
    Type const t = type_of(*d);
    auto const b = read_meta(name);
    if (t.base == "char") {
        return std::string(b.data(), b.size());
    }
    if (t.base == "int") {
        return std::to_string(meta_int(name, {}));
    }
    throw PdiError("cannot use $" + name + " in a string");
}

class Expr
{
    std::string const& e;
    std::size_t i = 0;

    void ws()
    {
        while (i < e.size() && std::isspace(static_cast<unsigned char>(e[i]))) {
            ++i;
        }
    }
    bool eat(char const* t)
    {
        ws();
        std::size_t const n = std::strlen(t);
        if (e.compare(i, n, t) == 0) {
            i += n;
            return true;
        }
        return false;
    }
    long primary()
    {
        ws();
        if (eat("(")) {
            long const v = lor();
            if (!eat(")")) {
                throw PdiError("')' expected in " + e);
            }
            return v;
        }
        if (eat("-")) {
            return -primary();
        }
        if (eat("!")) {
            return !primary();
        }
        if (i < e.size() && e[i] == '$') {
            ++i;
            bool const br = i < e.size() && e[i] == '{';
            if (br) {
                ++i;
            }
            std::string name;
            while (i < e.size() && (std::isalnum(static_cast<unsigned char>(e[i])) || e[i] == '_')) {
                name += e[i++];
            }
            std::vector<long> idx;
            auto index = [&] {
                while (i < e.size() && e[i] == '[') {
                    ++i;
                    idx.push_back(lor());
                    if (!eat("]")) {
                        throw PdiError("']' expected in " + e);
                    }
                }
            };
            index();
            if (br) {
                if (!eat("}")) {
                    throw PdiError("'}' expected in " + e);
                }
                index();
            }
            return meta_int(name, idx);
        }
        if (i < e.size() && std::isdigit(static_cast<unsigned char>(e[i]))) {
            long v = 0;
            while (i < e.size() && std::isdigit(static_cast<unsigned char>(e[i]))) {
                v = (v * 10) + (e[i++] - '0');
            }
            return v;
        }
        throw PdiError("cannot parse expression '" + e + "'");
    }
    long mul()
    {
        long v = primary();
        for (;;) {
            if (eat("*")) {
                v *= primary();
            } else if (eat("/")) {
                v /= primary();
            } else if (eat("%")) {
                v %= primary();
            } else {
                return v;
            }
        }
    }
    long add()
    {
        long v = mul();
        for (;;) {
            if (eat("+")) {
                v += mul();
            } else if (eat("-")) {
                v -= mul();
            } else {
                return v;
            }
        }
    }
    long cmp()
    {
        long v = add();
        for (;;) {
            if (eat("<=")) {
                v = v <= add();
            } else if (eat(">=")) {
                v = v >= add();
            } else if (eat("!=")) {
                v = v != add();
            } else if (eat("==") || eat("=")) {
                v = v == add();
            } else if (eat("<")) {
                v = v < add();
            } else if (eat(">")) {
                v = v > add();
            } else {
                return v;
            }
        }
    }
    long land()
    {
        long v = cmp();
        while (eat("&&") || eat("&")) {
            long const r = cmp();
            v = v && r;
        }
        return v;
    }
    long lor()
    {
        long v = land();
        while (eat("||") || eat("|")) {
            long const r = land();
            v = v || r;
        }
        return v;
    }

public:
    explicit Expr(std::string const& s) : e(s) {}
    long run()
    {
        long const v = lor();
        ws();
        if (i != e.size()) {
            throw PdiError("trailing characters in expression '" + e + "'");
        }
        return v;
    }
};

long eval(std::string const& e)
{
    return Expr(e).run();
}

std::string subst(std::string const& e)
{
    std::string r;
    for (std::size_t i = 0; i < e.size();) {
        if (e[i] == '$') {
            ++i;
            bool const br = i < e.size() && e[i] == '{';
            if (br) {
                ++i;
            }
            std::string name;
            while (i < e.size() && (std::isalnum(static_cast<unsigned char>(e[i])) || e[i] == '_')) {
                name += e[i++];
            }
            if (br) {
                if (i >= e.size() || e[i] != '}') {
                    throw PdiError("'}' expected in " + e);
                }
                ++i;
            }
            r += meta_string(name);
        } else {
            r += e[i++];
        }
    }
    return r;
}

struct H
{
    hid_t id;
    herr_t (*f)(hid_t);
    H(hid_t i, herr_t (*c)(hid_t), std::string const& what) : id(i), f(c)
    {
        if (id < 0) {
            throw PdiError("HDF5: " + what);
        }
    }
    ~H() { f(id); }
    H(H const&) = delete;
    H& operator=(H const&) = delete;
};

hid_t h5type(std::string const& base)
{
    if (base == "int") {
        return H5T_NATIVE_INT;
    }
    if (base == "double") {
        return H5T_NATIVE_DOUBLE;
    }
    if (base == "float") {
        return H5T_NATIVE_FLOAT;
    }
    if (base == "char") {
        return H5T_NATIVE_CHAR;
    }
    throw PdiError("no HDF5 type for " + base);
}

std::vector<hsize_t> hs(std::vector<long> const& v)
{
    std::vector<hsize_t> r;
    for (long const x : v) {
        if (x < 0) {
            throw PdiError("negative size");
        }
        r.push_back(static_cast<hsize_t>(x));
    }
    return r;
}

std::string joined(std::vector<long> const& v)
{
    std::string s = "(";
    for (long const x : v) {
        s += std::to_string(x) + " ";
    }
    return s + ")";
}

void select(hid_t space, std::vector<long> start, std::vector<long> const& size, std::vector<long> const& dims, std::string const& what)
{
    if (start.empty()) {
        start.assign(size.size(), 0);
    }
    if (size.size() != dims.size() || start.size() != dims.size()) {
        throw PdiError("selection rank mismatch for " + what);
    }
    bool empty = false;
    for (std::size_t i = 0; i < dims.size(); ++i) {
        if (start[i] < 0 || size[i] < 0 || start[i] + size[i] > dims[i]) {
            throw PdiError("selection " + joined(start) + "+" + joined(size) + " outside of " + joined(dims) + " for " + what);
        }
        empty = empty || size[i] == 0;
    }
    if (empty) {
        H5Sselect_none(space);
        return;
    }
    auto const st = hs(start);
    auto const sz = hs(size);
    if (H5Sselect_hyperslab(space, H5S_SELECT_SET, st.data(), nullptr, sz.data(), nullptr) < 0) {
        throw PdiError("hyperslab selection failed for " + what);
    }
}

// pointer to the current value of a data or metadata, for a transfer
char* pointer_of(std::string const& name, bool need_write, Type* ty, std::vector<char>& hold)
{
    bool is_meta = false;
    Node const* d = find_decl(name, &is_meta);
    if (!d) {
        return nullptr;
    }
    State& s = state();
    auto it = s.shared.find(name);
    if (it != s.shared.end()) {
        *ty = type_of(*d);
        if (need_write && !(it->second.access & PDI_IN)) {
            return nullptr;
        }
        return static_cast<char*>(it->second.p);
    }
    if (is_meta && !need_write && s.meta.count(name)) {
        *ty = type_of(*d);
        hold = s.meta[name];
        return hold.data();
    }
    return nullptr;
}

void one_transfer(Node const& plug, hid_t file, std::string const& filename, std::string const& event, bool write, std::string const& data, Node const* op)
{
    if (op && op->get("when") && !eval(op->get("when")->s)) {
        return;
    }
    Type ty;
    std::vector<char> hold;
    char* p = pointer_of(data, !write, &ty, hold);
    if (!p) {
        pdi_log().warnings.push_back(event + ": " + data + " is not available");
        return;
    }
    std::string const dset = op && op->get("dataset") ? subst(op->get("dataset")->s) : data;

    // memory selection
    std::vector<long> mstart(ty.dims.size(), 0);
    std::vector<long> msize = ty.dims;
    if (op && op->get("memory_selection")) {
        Node const* ms = op->get("memory_selection");
        if (ms->get("size")) {
            msize = eval_list(ms->get("size"));
        }
        if (ms->get("start")) {
            mstart = eval_list(ms->get("start"));
        }
    }
    H const mspace(
            ty.dims.empty() ? H5Screate(H5S_SCALAR)
                            : H5Screate_simple(static_cast<int>(ty.dims.size()), hs(ty.dims).data(), nullptr),
            H5Sclose,
            "memory space of " + data);
    long mcount = 1;
    if (!ty.dims.empty()) {
        select(mspace.id, mstart, msize, ty.dims, data);
        for (long const x : msize) {
            mcount *= x;
        }
    }

    // dataset
    Node const* decls = plug.get("datasets");
    Node const* decl = decls ? decls->get(dset) : nullptr;
    hid_t did = -1;
    std::vector<long> ddims;
    bool const exists = H5Lexists(file, dset.c_str(), H5P_DEFAULT) > 0;
    if (!write) {
        if (!exists) {
            throw PdiError("dataset " + dset + " not found in " + filename);
        }
        did = H5Dopen2(file, dset.c_str(), H5P_DEFAULT);
    } else {
        Type const dt = decl ? type_of(*decl) : Type {ty.base, ty.dims.empty() ? std::vector<long> {} : msize};
        if (exists) {
            did = H5Dopen2(file, dset.c_str(), H5P_DEFAULT);
        } else {
            H const sp(
                    dt.dims.empty() ? H5Screate(H5S_SCALAR)
                                    : H5Screate_simple(static_cast<int>(dt.dims.size()), hs(dt.dims).data(), nullptr),
                    H5Sclose,
                    "dataset space");
            did = H5Dcreate2(file, dset.c_str(), h5type(dt.base), sp.id, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        }
    }
    H const dh(did, H5Dclose, "dataset " + dset);
    H const fspace(H5Dget_space(dh.id), H5Sclose, "dataspace");
    int const nd = H5Sget_simple_extent_ndims(fspace.id);
    if (nd > 0) {
        std::vector<hsize_t> d(nd);
        H5Sget_simple_extent_dims(fspace.id, d.data(), nullptr);
        ddims.assign(d.begin(), d.end());
    }
    std::vector<long> dstart(ddims.size(), 0);
    std::vector<long> dsize = ddims;
    if (op && op->get("dataset_selection")) {
        Node const* ds = op->get("dataset_selection");
        if (ds->get("size")) {
            dsize = eval_list(ds->get("size"));
        }
        if (ds->get("start")) {
            dstart = eval_list(ds->get("start"));
        }
    }
    long dcount = 1;
    if (!ddims.empty()) {
        select(fspace.id, dstart, dsize, ddims, dset);
        for (long const x : dsize) {
            dcount *= x;
        }
    }
    if (dcount != mcount) {
        throw PdiError("dataset selection of " + std::to_string(dcount) + " elements, memory selection of " + std::to_string(mcount) + " for " + dset);
    }
    // buffer size monitor
    bool device = false;
    std::string label;
    long const rem = alloc_remaining(p, &label, &device);
    if (rem >= 0 && static_cast<std::size_t>(rem) < ty.bytes()) {
        violation("pdi-buffer-size", data + ": buffer '" + label + "' has " + std::to_string(rem) + " bytes, " + std::to_string(ty.bytes()) + " announced");
    }
    if (rem >= 0 && device) {
        violation("pdi-device-buffer", data + ": buffer '" + label + "' is in device memory");
    }
    if (mcount == 0) {
        return;
    }
    herr_t const e = write ? H5Dwrite(dh.id, h5type(ty.base), mspace.id, fspace.id, H5P_DEFAULT, p)
                           : H5Dread(dh.id, h5type(ty.base), mspace.id, fspace.id, H5P_DEFAULT, p);
    if (e < 0) {
        throw PdiError(std::string("HDF5 ") + (write ? "write" : "read") + " of " + dset + " failed");
    }
    if (write) {
        ++stats().pdi_writes;
    } else {
        ++stats().pdi_reads;
    }
    pdi_log().transfers.push_back(PdiTransfer {write, tl_rank, event, filename, dset, data, dstart, dsize});
    if (!write) {
        // metadata read from a file are refreshed
        State& s = state();
        auto it = s.meta.find(data);
        if (it != s.meta.end()) {
            it->second.assign(p, p + ty.bytes());
        }
    }
}

bool event_matches(Node const* on, std::string const& ev)
{
    if (!on) {
        return false;
    }
    if (on->kind == Node::scalar) {
        return on->s == ev;
    }
    for (auto const& i : on->items) {
        if (i.s == ev) {
            return true;
        }
    }
    return false;
}

void transfers(Node const& plug, hid_t file, std::string const& filename, std::string const& event, bool write)
{
    Node const* list = plug.get(write ? "write" : "read");
    if (!list) {
        return;
    }
    if (list->kind == Node::seq) {
        for (auto const& i : list->items) {
            one_transfer(plug, file, filename, event, write, i.s, nullptr);
        }
        return;
    }
    if (list->kind == Node::scalar) {
        one_transfer(plug, file, filename, event, write, list->s, nullptr);
        return;
    }
    for (auto const& [name, op] : list->fields) {
        if (op.kind == Node::seq) {
            for (auto const& o : op.items) {
                one_transfer(plug, file, filename, event, write, name, &o);
            }
        } else {
            one_transfer(plug, file, filename, event, write, name, op.kind == Node::map ? &op : nullptr);
        }
    }
}

struct ErrOff
{
    H5E_auto2_t f {};
    void* d = nullptr;
    ErrOff()
    {
        H5Eget_auto2(H5E_DEFAULT, &f, &d);
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    }
    ~ErrOff() { H5Eset_auto2(H5E_DEFAULT, f, d); }
};

void do_event(std::string const& ev)
{
    ++stats().pdi_events;
    ++pdi_log().events;
    State& s = state();
    Node const* plugins = s.conf->get("plugins");
    Node const* dh = plugins ? plugins->get("decl_hdf5") : nullptr;
    if (!dh) {
        return;
    }
    std::vector<Node const*> specs;
    if (dh->kind == Node::seq) {
        for (auto const& i : dh->items) {
            specs.push_back(&i);
        }
    } else {
        specs.push_back(dh);
    }
    for (Node const* sp : specs) {
        if (!event_matches(sp->get("on_event"), ev)) {
            continue;
        }
        if (sp->get("when") && !eval(sp->get("when")->s)) {
            continue;
        }
        std::string const file = subst(sp->get("file")->s);
        MPI_Comm comm = MPI_COMM_NULL;
        if (Node const* c = sp->get("communicator")) {
            std::string name;
            for (char const ch : c->s) {
                if (ch != '$' && ch != '{' && ch != '}') {
                    name += ch;
                }
            }
            auto const b = read_meta(name);
            if (b.size() != sizeof(MPI_Comm)) {
                throw PdiError("communicator has a wrong size");
            }
            std::memcpy(&comm, b.data(), sizeof(MPI_Comm));
            MPI_Barrier(comm);
        }
        std::string const policy = sp->get("collision_policy") ? sp->get("collision_policy")->s : "skip_and_warn";
        {
            ErrOff const off;
            struct stat sb {};
            bool const exists = ::stat(file.c_str(), &sb) == 0;
            bool const has_read = sp->get("read") != nullptr;
            bool const has_write = sp->get("write") != nullptr;
            if (has_read) {
                H const f(H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), H5Fclose, "cannot open '" + file + "'");
                transfers(*sp, f.id, file, ev, false);
            }
            if (has_write) {
                hid_t id = -1;
                bool skip = false;
                if (exists && policy == "replace" && comm == MPI_COMM_NULL) {
                    id = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
                    ++pdi_log().file_generation[file];
                } else if (exists && (policy == "write_into" || comm != MPI_COMM_NULL)) {
                    id = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
                } else if (exists) {
                    pdi_log().warnings.push_back("collision on " + file);
                    skip = true;
                } else {
                    id = H5Fcreate(file.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
                    ++pdi_log().file_generation[file];
                }
                if (!skip) {
                    H const f(id, H5Fclose, "cannot create or open '" + file + "'");
                    transfers(*sp, f.id, file, ev, true);
                }
            }
        }
        if (comm != MPI_COMM_NULL) {
            MPI_Barrier(comm);
        }
    }
}

void do_share(std::string const& name, void const* data, int access)
{
    if (!data) {
        return; // e.g. the placeholder "nullptr"
    }
    bool is_meta = false;
    Node const* d = find_decl(name, &is_meta);
    if (!d) {
        pdi_log().warnings.push_back("shared data '" + name + "' is not described");
        return;
    }
    State& s = state();
    s.shared[name] = Shared {const_cast<void*>(data), access};
    if (is_meta) {
        Type const t = type_of(*d);
        char const* c = static_cast<char const*>(data);
        s.meta[name].assign(c, c + t.bytes());
    }
}

void do_reclaim(std::string const& name)
{
    State& s = state();
    auto it = s.shared.find(name);
    if (it == s.shared.end()) {
        return;
    }
    s.shared.erase(it);
}

} // namespace

void pdi_reset()
{
    pdi_log() = PdiLog {};
    states().clear();
}

// the trees handed out: one that a failing run never gives back is not a leak worth a report
namespace {
std::mutex& tree_mutex()
{
    static std::mutex m;
    return m;
}
std::map<void*, std::unique_ptr<Node>>& trees()
{
    static std::map<void*, std::unique_ptr<Node>> t;
    return t;
}
PC_tree_t new_tree(std::string const& text)
{
    auto n = std::make_unique<Node>(Yaml().parse(text));
    void* const p = n.get();
    std::scoped_lock const l(tree_mutex());
    trees()[p] = std::move(n);
    return PC_tree_t {0, p};
}
} // namespace

} // namespace vshim

using namespace vshim;

extern "C" {

PC_tree_t PC_parse_string(char const* document)
{
    return new_tree(document);
}
PC_tree_t PC_parse_path(char const* path)
{
    std::ifstream f(path);
    if (!f) {
        throw PdiError(std::string("cannot open ") + path);
    }
    std::stringstream ss;
    ss << f.rdbuf();
    return new_tree(ss.str());
}
int PC_tree_destroy(PC_tree_t* tree)
{
    if (!tree->node) {
        violation("pc-double-destroy", "PC_tree_destroy on a destroyed tree");
    }
    {
        std::scoped_lock const l(tree_mutex());
        trees().erase(tree->node);
    }
    tree->node = nullptr;
    return 0;
}
PDI_status_t PDI_init(PC_tree_t conf)
{
    if (states().count(tl_rank)) {
        violation("pdi-double-init", "PDI_init called twice");
    }
    states()[tl_rank].conf = std::make_unique<Node>(*static_cast<Node*>(conf.node));
    return PDI_OK;
}
PDI_status_t PDI_finalize()
{
    State& s = state();
    if (!s.shared.empty()) {
        pdi_log().warnings.push_back("data still shared at PDI_finalize: " + s.shared.begin()->first);
    }
    states().erase(tl_rank);
    return PDI_OK;
}
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access)
{
    do_share(name, data, access);
    return PDI_OK;
}
PDI_status_t PDI_reclaim(char const* name)
{
    do_reclaim(name);
    return PDI_OK;
}
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access)
{
    do_share(name, data, access);
    do_reclaim(name);
    return PDI_OK;
}
PDI_status_t PDI_event(char const* ev)
{
    do_event(ev);
    return PDI_OK;
}
PDI_status_t PDI_multi_expose(char const* event_name, char const* name, void const* data, PDI_inout_t access, ...)
{
    std::vector<std::string> names;
    do_share(name, data, access);
    names.emplace_back(name);
    va_list ap;
    va_start(ap, access);
    while (char const* n = va_arg(ap, char const*)) {
        void const* d = va_arg(ap, void const*);
        int const a = va_arg(ap, int);
        do_share(n, d, a);
        names.emplace_back(n);
    }
    va_end(ap);
    do_event(event_name);
    for (auto it = names.rbegin(); it != names.rend(); ++it) {
        do_reclaim(*it);
    }
    return PDI_OK;
}
}
