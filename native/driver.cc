// Drives the native code of fairseq2n with random programs. The sanitizers it
// is built with are the judges; it also counts the live examples itself.
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <thread>
#include <typeinfo>

#include <fcntl.h>
#include <unistd.h>

#include <ATen/Functions.h>

#include "fairseq2n/data/byte_stream.h"
#include "fairseq2n/data/collater.h"
#include "fairseq2n/data/data.h"
#include "fairseq2n/data/data_length_extractor.h"
#include "fairseq2n/data/data_pipeline.h"
#include "fairseq2n/data/element_mapper.h"
#include "fairseq2n/data/element_selector.h"
#include "fairseq2n/data/file.h"
#include "fairseq2n/data/file_mapper.h"
#include "fairseq2n/data/immutable_string.h"
#include "fairseq2n/data/tape.h"
#include "fairseq2n/data/text/string_splitter.h"
#include "fairseq2n/data/text/string_to_int_converter.h"
#include "fairseq2n/data/text/string_to_tensor_converter.h"
#include "fairseq2n/data/text/text_reader.h"
#include "fairseq2n/memory.h"

using namespace fairseq2n;
using u64 = std::uint64_t;
namespace fs = std::filesystem;

static std::atomic<long> live{0};
static std::map<std::string, long> counts;
static bool conc = false;
static fs::path dir;

static void
count(const char *k, long n = 1)
{
    counts[k] += n;
}

struct Rng {
    std::mt19937_64 g;
    explicit Rng(u64 s) : g{s} {}
    u64 operator()(u64 n) { return n ? g() % n : 0; }
    bool p(double x) { return static_cast<double>(g() >> 11) * 0x1.0p-53 < x; }
    template <typename T>
    const T &pick(const std::vector<T> &v) { return v[(*this)(v.size())]; }
};

static u64
mix(u64 x)
{
    x ^= x >> 31;
    x *= 0x9E3779B97F4A7C15ULL;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ULL;
    return x ^ (x >> 32);
}

static void
freed(const void *p, std::size_t, void *) noexcept
{
    live.fetch_sub(1, std::memory_order_relaxed);
    std::free(const_cast<void *>(p));
}

static memory_block
block(std::size_t n, char c)
{
    auto *p = static_cast<std::byte *>(std::malloc(n ? n : 1));
    std::memset(p, c, n);
    live.fetch_add(1, std::memory_order_relaxed);
    return memory_block{p, n, nullptr, freed};
}

// Reads all of the example, and so all memory it refers to.
static u64
digest(const data &d)
{
    u64 h = static_cast<u64>(d.type()) + 11;
    auto bytes = [&h](const void *p, std::size_t n) {
        auto *c = static_cast<const unsigned char *>(p);
        for (std::size_t i = 0; i < n; ++i)
            h = h * 1099511628211ULL + c[i];
        h = mix(h + n);
    };
    switch (d.type()) {
    case data_type::bool_: return mix(h + d.as_bool());
    case data_type::int_: return mix(h + static_cast<u64>(d.as_int()));
    case data_type::float_: { double f = d.as_float(); bytes(&f, sizeof f); return h; }
    case data_type::string: { std::string_view v = d.as_string(); bytes(v.data(), v.size()); return h; }
    case data_type::memory_block: { const auto &m = d.as_memory_block(); bytes(m.data(), m.size()); return h; }
    case data_type::tensor: {
        at::Tensor t = d.as_tensor();
        if (!t.defined())
            return h;
        t = t.contiguous();
        bytes(t.data_ptr(), static_cast<std::size_t>(t.numel()) * t.element_size());
        return h;
    }
    case data_type::list: for (const data &e : d.as_list()) h = mix(h * 3 + digest(e)); return h;
    case data_type::dict: for (const auto &[k, v] : d.as_dict()) { bytes(k.data(), k.size()); h = mix(h * 5 + digest(v)); } return h;
    default: return h;
    }
}

static std::string
chars(Rng &r)
{
    static const std::vector<std::string> parts{"a", "b c", "\t", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "0", "42", "-7", "", "zz", ",", ".", "\n"};
    std::string s;
    for (u64 n = r(r.p(0.1) ? 60 : 7); n > 0; --n)
        s += r.pick(parts);
    return s;
}

static std::string
garbage(Rng &r)
{
    std::string s = chars(r);
    if (r.p(0.5))
        for (u64 n = r(6); n > 0; --n)
            s.insert(r(s.size() + 1), 1, static_cast<char>(r(256)));
    return s;
}

static at::Tensor
tensor(Rng &r)
{
    std::vector<std::int64_t> shape;
    for (u64 n = r(3); n > 0; --n)
        shape.push_back(static_cast<std::int64_t>(r(r.p(0.1) ? 1 : 6)));
    if (r.p(0.7) && shape.empty())
        shape.push_back(1 + static_cast<std::int64_t>(r(9)));
    auto t = at::empty(shape, r.p(0.5) ? at::kLong : r.p(0.5) ? at::kFloat : r.p(0.5) ? at::kInt : at::kHalf).fill_(static_cast<std::int64_t>(r(100)));
    if (r.p(0.1) && t.dim() == 2)
        t = t.t();
    return t;
}

static data
leaf(Rng &r)
{
    switch (r(conc ? 5 : 6)) {
    case 0: return static_cast<std::int64_t>(r(1000)) - 100;
    case 1: return static_cast<float64>(r(1000)) / 7;
    case 2: return r.p(0.5);
    case 3: return chars(r);
    case 4: return block(r(50), static_cast<char>(r(256)));
    default: return tensor(r);
    }
}

static data
value(Rng &r, int depth)
{
    if (depth <= 0 || r.p(0.5))
        return leaf(r);
    if (r.p(0.5)) {
        data_list l;
        for (u64 n = r(4); n > 0; --n)
            l.push_back(value(r, depth - 1));
        return l;
    }
    data_dict d;
    static const std::vector<std::string> keys{"a", "b", "seqs", "id", "x y"};
    for (u64 n = r(4); n > 0; --n)
        d.emplace(r.pick(keys), value(r, depth - 1));
    return d;
}

// An example with a sequence to batch, pack, or bucket.
static data
example(Rng &r, int schema)
{
    switch (schema) {
    case 0: return static_cast<std::int64_t>(r(50));
    case 1: {
        data_dict d;
        d.emplace("id", static_cast<std::int64_t>(r(1000)));
        d.emplace("m", block(r(20), 'x'));
        if (!conc)
            d.emplace("seqs", at::full({static_cast<std::int64_t>(1 + r(9))}, static_cast<std::int64_t>(r(9)), at::kLong));
        return d;
    }
    case 2: return conc ? data{block(r(9), 'y')} : data{at::full({static_cast<std::int64_t>(1 + r(9))}, static_cast<std::int64_t>(r(9)), at::kLong)};
    case 3: return chars(r);
    default: return value(r, 3);
    }
}

static void
nap(u64 h)
{
    if (!conc)
        return;
    switch (h % 7) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(h % 400)); break;
    case 1: case 2: std::this_thread::yield(); break;
    default: break;
    }
}

// Relaxed, so that they do not order the threads.
static std::atomic<u64> calls{0};
static std::atomic<u64> order{0};

static void
called(u64 h)
{
    u64 n = calls.fetch_add(1, std::memory_order_relaxed);
    order.fetch_xor(mix(h + mix(n)), std::memory_order_relaxed);
}

static bool damages = false;

// Sets `inf` if the pipeline has no end.
static data_pipeline build(Rng r, int depth, int schema, bool &inf);
static data_pipeline build(Rng r, int depth, int schema)
{
    bool inf = false;
    auto p = build(r, depth, schema, inf);
    return p;
}

static data_pipeline_builder
source(Rng &r, int depth, int schema, bool &inf)
{
    if (depth > 0 && r.p(0.35)) {
        std::vector<data_pipeline> ps;
        int nested = static_cast<int>(r(5));
        for (u64 n = r.p(0.05) ? 0 : 1 + r(3); n > 0; --n)
            ps.push_back(build(Rng{r.g()}, depth - 1, r.p(0.8) ? schema : nested, inf));
        switch (r(4)) {
        case 0: return data_pipeline::concat(std::move(ps));
        case 1: return data_pipeline::round_robin(std::move(ps), r.p(0.5), r.p(0.6));
        case 2: {
            std::optional<std::vector<float>> w;
            if (r.p(0.6)) {
                w.emplace();
                for (std::size_t i = 0; i < ps.size(); ++i)
                    w->push_back(static_cast<float>(1 + r(9)) / 3);
            }
            return data_pipeline::sample(std::move(ps), w, r(1000), r.p(0.6));
        }
        default: {
            std::vector<std::string> names;
            if (r.p(0.5))
                for (std::size_t i = 0; i < ps.size(); ++i)
                    names.push_back("n" + std::to_string(i));
            return data_pipeline::zip(std::move(ps), names, r.p(0.6), r.p(0.3), r.p(0.3));
        }
        }
    }
    switch (r(12)) {
    case 0: return data_pipeline::constant(example(r, schema), r.p(0.3) ? std::optional<std::string>{"k"} : std::nullopt).take(r(12));
    case 1: return data_pipeline::count(static_cast<std::int64_t>(r(5)), static_cast<std::int64_t>(r(4)), r.p(0.3) ? std::optional<std::string>{"k"} : std::nullopt).take(r(25));
    case 2: if (r.p(0.5)) { inf = true; return r.p(0.5) ? data_pipeline::constant(example(r, schema)) : data_pipeline::count(); } [[fallthrough]];
    case 3: {
        auto f = dir / ("t" + std::to_string(r(6)) + ".txt");
        return read_text(f, r.p(0.3) ? std::optional<std::string>{"t"} : std::nullopt,
            text_options{}.line_ending(r.p(0.5) ? line_ending::infer : line_ending::lf).ltrim(r.p(0.5)).rtrim(r.p(0.5)).skip_empty(r.p(0.5)).memory_map(r.p(0.5)).maybe_block_size(r.p(0.5) ? std::optional<std::size_t>{1 + r(20)} : std::nullopt));
    }
    case 4: return list_files(dir, r.p(0.5) ? std::optional<std::string>{"*.txt"} : std::nullopt);
    default: {
        data_list l;
        for (u64 n = r(30); n > 0; --n)
            l.push_back(example(r, schema));
        return read_list(std::move(l));
    }
    }
}

static map_fn
function(Rng &r)
{
    u64 salt = r.g();
    u64 fail = r.p(0.3) ? 5 + r(40) : 0;
    bool recoverable = r.p(0.5);
    int kind = static_cast<int>(r(6));
    std::shared_ptr<file_mapper> files;
    if (kind == 5)
        files = std::make_shared<file_mapper>(dir, 1 + r(3));
    return [=](data &&d) -> data {
        u64 h = mix(digest(d) + salt);
        called(h);
        nap(h);
        if (fail && h % fail == 0) {
            if (recoverable)
                throw data_pipeline_error{"recoverable", d, true};
            throw std::runtime_error{"failed"};
        }
        switch (kind) {
        case 0: return data_list{d, d};
        case 1: { data_dict m; m.emplace("a", d); m.emplace("id", static_cast<std::int64_t>(h % 99)); return m; }
        case 2: if (d.is_list() && !d.as_list().empty()) return std::move(d).as_list().back(); return std::move(d);
        case 3: if (!conc) { try { return collater{collate_options{}.maybe_pad_value(0).pad_to_multiple(static_cast<std::int64_t>(1 + h % 3))}(data{d}); } catch (const std::exception &) {} } return std::move(d);
        case 5: return (*files)(std::string{"t"} + std::to_string(h % 5) + ".txt" + (h % 3 ? ":0" : ""));
        default: return std::move(d);
        }
    };
}

static data_pipeline_builder
op(Rng &r, data_pipeline_builder b, int depth, int schema, bool &inf)
{
    static const std::vector<u64> safe{0, 4, 5, 6, 8, 9, 11, 12, 13, 14, 14, 14};
    switch (inf ? r.pick(safe) : r(17)) {
    case 0: return std::move(b).bucket(1 + r(4), r.p(0.3));
    case 1: {
        std::vector<std::pair<std::size_t, std::size_t>> sizes;
        for (std::size_t n = 1 + r(4), w = 1; n > 0; --n)
            sizes.emplace_back(1 + r(4), w += r(12));
        u64 m = 1 + r(20);
        return std::move(b).bucket_by_length(sizes, [m](const data &d) { return static_cast<std::size_t>(digest(d) % m); }, 1 + r(3), r.p(0.7), r.p(0.7), r.p(0.4));
    }
    case 2: {
        std::optional<bucket_creation_fn> fn;
        if (r.p(0.4)) {
            u64 k = 1 + r(3);
            fn = [k](data_list &&l) {
                std::deque<data> out;
                data_list part, rest;
                for (std::size_t i = 0; i < l.size(); ++i)
                    if (i + 1 == l.size() && i > k)
                        rest.push_back(l[i]);
                    else {
                        part.push_back(std::move(l[i]));
                        if (part.size() == k) {
                            out.push_back(std::move(part));
                            part = {};
                        }
                    }
                if (!part.empty())
                    out.push_back(std::move(part));
                return std::make_pair(std::move(out), std::move(rest));
            };
        }
        return std::move(b).dynamic_bucket(static_cast<float64>(1 + r(20)) / 2, [](const data &d) { return static_cast<float64>(digest(d) % 5); }, fn,
            r.p(0.3) ? std::optional<std::size_t>{1 + r(3)} : std::nullopt, r.p(0.5) ? std::optional<std::size_t>{3 + r(4)} : std::nullopt, r.p(0.4));
    }
    case 3: { u64 m = 2 + r(4); return std::move(b).filter([m](const data &d) { u64 h = digest(d); called(h); nap(h); return h % m != 0; }); }
    case 4: case 5: case 6: {
        std::size_t n = r.p(0.3) ? 1 : 2 + r(5);
        return std::move(b).map(function(r), n, r.p(0.5));
    }
    case 7: return std::move(b).pack(static_cast<std::int64_t>(2 + r(20)), static_cast<std::int64_t>(2 + r(20)), 0, r.p(0.6), r.p(0.5));
    case 8: case 9: return std::move(b).prefetch(r(6));
    case 10: if (r.p(0.7)) return std::move(b).repeat(1 + r(3), r.p(0.3)); inf = true; return std::move(b).repeat(std::nullopt, r.p(0.3));
    case 11: { std::size_t n = 1 + r(3); return std::move(b).shard(r(n), n, r.p(0.5)); }
    case 12: return std::move(b).shuffle(inf ? 1 + r(9) : r(12), r(1000));
    case 13: return std::move(b).skip(r(5));
    case 14: inf = false; return std::move(b).take(r(40));
    case 15: if (depth > 0) {
        u64 s = r.g();
        return std::move(b).yield_from([=](const data &d) { bool x = false; auto p = build(Rng{mix(s + digest(d) % 4)}, depth - 1, schema, x); if (!x) return p; std::vector<data_pipeline> ps; ps.push_back(std::move(p)); return data_pipeline::concat(std::move(ps)).take(20).and_return(); });
    }
    [[fallthrough]];
    default: return b;
    }
}

static data_pipeline
build(Rng r, int depth, int schema, bool &inf_)
{
    bool inf = false;
    auto b = source(r, depth, schema, inf);
    for (u64 n = r(depth >= 2 ? 6 : 3); n > 0; --n)
        b = op(r, std::move(b), depth, schema, inf);
    inf_ |= inf;
    return std::move(b).and_return(r.p(0.3) ? 3 : 0);
}

static void
damage(Rng &r, data &d, int depth)
{
    if (depth > 0 && d.is_list() && !d.as_list().empty() && r.p(0.6))
        return damage(r, d.as_list()[r(d.as_list().size())], depth - 1);
    static const std::vector<std::int64_t> ints{-1, 0, 1, 2, 3, 7, 100, 1000, INT64_MAX, INT64_MIN, -5};
    if (d.is_int() && r.p(0.8))
        d = r.pick(ints);
    else if (d.is_bool() && r.p(0.6))
        d = !d.as_bool();
    else if (d.is_tensor() && r.p(0.7))
        d = r.p(0.5) ? at::empty({static_cast<std::int64_t>(r(20))}, at::kByte).fill_(3) : tensor(r);
    else
        d = value(r, 2);
}

template <typename F>
static bool
attempt(const char *what, F &&f)
{
    try {
        f();
        count(what);
        return true;
    } catch (const data_pipeline_error &ex) {
        if (ex.maybe_example())
            digest(*ex.maybe_example());
        count("pipeline_errors");
    } catch (const std::exception &) {
        count("errors");
    }
    return false;
}

static void
program(u64 seed)
{
    Rng r{seed};
    int schema = static_cast<int>(r(5)), depth = 1 + static_cast<int>(r(2));
    u64 bs = r.g();
    std::optional<data_pipeline> p;
    std::vector<std::pair<data_list, bool>> tapes;
    auto make = [&] { p.reset(); return attempt("pipelines", [&] { p = build(Rng{bs}, depth, schema); }); };
    if (!make())
        return;
    std::optional<data> kept;
    for (u64 n = 5 + r(40); n > 0; --n) {
        if (p->is_broken() && r.p(0.5) && !make())
            return;
        switch (r(16)) {
        case 0: attempt("resets", [&] { p->reset(r.p(0.5)); }); break;
        case 1: case 2: attempt("records", [&] { tape t; p->record_position(t, r.p(0.7)); tapes.emplace_back(t.storage(), true); }); break;
        case 3: case 4: if (!tapes.empty()) {
            auto l = r.pick(tapes).first;
            bool hurt = false;
            if (damages && r.p(0.5)) {
                hurt = true;
                for (u64 k = 1 + r(3); k > 0 && !l.empty(); --k)
                    switch (r(6)) {
                    case 0: l.erase(l.begin() + static_cast<long>(r(l.size()))); break;
                    case 1: l.resize(r(l.size() + 1)); break;
                    case 2: std::swap(l[r(l.size())], l[r(l.size())]); break;
                    case 3: l.insert(l.begin() + static_cast<long>(r(l.size())), value(r, 1)); break;
                    default: damage(r, l[r(l.size())], 3);
                    }
            }
            if (r.p(0.4) && !make())
                return;
            tape t{l};
            attempt(hurt ? "damaged_reloads" : "reloads", [&] { p->reload_position(t); });
        }
        break;
        case 5: if (r.p(0.3)) make(); break;
        case 6: attempt("finitude", [&] { (void)p->finitude_type(); }); break;
        case 7: if (r.p(0.2)) { auto q = std::move(*p); p = std::move(q); } break;
        default:
            for (u64 k = 1 + r(6); k > 0; --k)
                if (!attempt("reads", [&] { auto d = p->next(); if (d) { digest(*d); count("examples"); if (r.p(0.1)) kept = std::move(d); } }))
                    break;
        }
        if (!p)
            return;
        if (conc)
            nap(r.g());
    }
    if (r.p(0.5))
        p.reset();
    if (kept)
        digest(*kept);
}

static std::string
selector(Rng &r)
{
    static const std::vector<std::string> parts{"a", "b", "seqs", "[0]", "[1]", "[*]", "*", ".", ",", "[", "]", "[99999999999999999999]", "[-1]", " ", "id", "\xC3\xA9", "x y"};
    std::string s;
    if (r.p(0.2)) {
        for (u64 n = r(6); n > 0; --n)
            s += r.pick(parts);
    } else
        for (u64 m = 1 + r(2); m > 0; --m) {
            s += r.p(0.4) ? "a" : r.p(0.5) ? "seqs" : "[*]";
            for (u64 n = r(3); n > 0; --n)
                s += r.p(0.5) ? r.p(0.5) ? ".b" : ".id" : r.p(0.5) ? "[*]" : "[" + std::to_string(r(3)) + "]";
            if (m > 1)
                s += ",";
        }
    return s;
}

static void
kit(u64 seed)
{
    Rng r{seed};
    switch (r(8)) {
    case 0: case 1: {
        int schema = static_cast<int>(r.p(0.7) ? 1 + r(2) : r(5));
        data_list l;
        for (u64 n = r(6); n > 0; --n)
            l.push_back(r.p(0.97) ? example(r, schema) : value(r, 2));
        attempt("collates", [&] {
            auto o = collate_options{}.pad_to_multiple(static_cast<std::int64_t>(r.p(0.1) ? 0 : 1 + r(4)));
            if (r.p(0.7))
                o = o.maybe_pad_value(static_cast<std::int64_t>(r(9)));
            std::vector<collate_options_override> ov;
            for (u64 n = r.p(0.6) ? 0 : 1 + r(2); n > 0; --n)
                ov.emplace_back(selector(r), collate_options{}.maybe_pad_value(1));
            auto out = collater{o, ov}(r.p(0.9) ? data{l} : value(r, 3));
            digest(out);
        });
        digest(l);
        break;
    }
    case 2: {
        std::string s = garbage(r);
        attempt("strings", [&] {
            immutable_string x{s};
            x.get_code_point_length();
            u64 n = 0;
            for (const auto &y : x.split(r.p(0.5) ? 'a' : '\t'))
                n += digest(data{y});
            x.split(',', [&](immutable_string &&y) { n += y.size(); return r.p(0.8); });
            auto k = r(x.size() + 1);
            digest(data{x.remove_prefix(k).remove_suffix(r(x.size() - k + 1))});
            digest(data{immutable_string{block(r(20), static_cast<char>(r(256)))}});
        });
        break;
    }
    case 3: {
        static const std::vector<std::string> nums{"0", "-1", "99999999999999999999", "12 3", " 4", "+5", "0x1f", "", "1,2", "3 4 5", "-", "7 8 9 10", "1e3", "128"};
        std::string s = r.p(0.6) ? r.pick(nums) : garbage(r);
        attempt("to_int", [&] { digest(string_to_int_converter{r.pick(std::vector<std::int16_t>{10, 2, 16, 36})}(data{s})); });
        std::vector<std::int64_t> shape;
        for (u64 n = r(3); n > 0; --n)
            shape.push_back(static_cast<std::int64_t>(r(5)) - (r.p(0.3) ? 1 : 0));
        auto dt = r.pick(std::vector<std::optional<at::ScalarType>>{std::nullopt, at::kInt, at::kLong, at::kFloat, at::kByte, at::kChar, at::kShort, at::kDouble});
        attempt("to_tensor", [&] { digest(string_to_tensor_converter{shape, dt}(data{s})); });
        break;
    }
    case 4: {
        std::string s = garbage(r);
        std::vector<std::string> names;
        std::vector<std::size_t> idx;
        for (u64 n = r(4); n > 0; --n)
            names.push_back(chars(r));
        if (r.p(0.5))
            for (char &c : s)
                c = static_cast<char>(c & 0x7F);
        if (r.p(0.6))
            names.clear();
        for (u64 n = r.p(0.5) ? 0 : r(4); n > 0; --n)
            idx.push_back(r(6));
        attempt("splits", [&] { digest(string_splitter{r.p(0.5) ? '\t' : ',', names, idx, r.p(0.5)}(data{s})); });
        attempt("splits", [&] { digest(string_splitter{'a', names, r(3), r.p(0.3)}(r.p(0.9) ? data{s} : value(r, 1))); });
        break;
    }
    case 5: {
        data d = value(r, 4);
        if (r.p(0.8)) {
            data_dict a, b;
            b.emplace("b", value(r, 1));
            b.emplace("id", data_list{value(r, 1), leaf(r), leaf(r)});
            a.emplace("a", r.p(0.5) ? data{b} : data{data_list{b, b, b}});
            a.emplace("seqs", r.p(0.5) ? data{data_list{leaf(r), b, b}} : data{b});
            d = r.p(0.5) ? data{a} : data{data_list{a, a}};
        }
        auto s = selector(r);
        attempt("selects", [&] {
            element_selector e{s};
            e.visit(d, [&](data &x, element_path_ref p) { x = value(r, 1); (void)p; (void)e.matches(p); });
            const data &c = d;
            e.visit(c, [&](const data &x, element_path_ref) { digest(x); });
        });
        attempt("maps", [&] {
            element_mapper m{[&](data &&x) { if (r.p(0.1)) throw std::runtime_error{"failed"}; return data_list{x, std::move(x)}; }, r.p(0.7) ? std::optional<std::string>{s} : std::nullopt};
            digest(m(data{d}));
            digest(d);
        });
        attempt("lengths", [&] { (void)data_length_extractor{r.p(0.7) ? std::optional<std::string>{s} : std::nullopt}(d); });
        digest(d);
        break;
    }
    case 6: {
        file_mapper m{r.p(0.8) ? std::optional<fs::path>{dir} : std::nullopt, r.p(0.6) ? std::optional<std::size_t>{r(4)} : std::nullopt};
        std::vector<data> keep;
        for (u64 n = 1 + r(12); n > 0; --n) {
            static const std::vector<std::string> nums{"0", "1", "5", "64", "100000", "-1", "", "x", "18446744073709551615", "9223372036854775807", "18446744073709551000", "3 "};
            std::string s = "t" + std::to_string(r(8)) + ".txt";
            for (u64 k = r(4); k > 0; --k)
                s += ":" + r.pick(nums);
            attempt("file_maps", [&] { auto d = m(r.p(0.95) ? data{s} : value(r, 1)); digest(d); keep.push_back(std::move(d)); });
            if (r.p(0.3) && !keep.empty())
                digest(keep.front());
        }
        break;
    }
    default: {
        auto f = dir / "g.txt";
        std::string s;
        for (u64 n = r(30); n > 0; --n)
            s += r.p(0.8) ? chars(r) + (r.p(0.5) ? "\r\n" : "\n") : garbage(r);
        { std::ofstream o{f, std::ios::binary}; o << s; }
        auto read = [&](Rng q) {
            return read_text(f, {}, text_options{}.line_ending(q.pick(std::vector<line_ending>{line_ending::infer, line_ending::lf, line_ending::crlf})).ltrim(q.p(0.5)).rtrim(q.p(0.5)).skip_empty(q.p(0.5)).memory_map(q.p(0.5))
                .maybe_encoding(q.p(0.2) ? std::optional<std::string>{q.pick(std::vector<std::string>{"utf-8", "latin-1", "nosuch", "utf-16"})} : std::nullopt)
                .maybe_block_size(q.p(0.7) ? std::optional<std::size_t>{1 + q(12)} : std::nullopt)).and_return();
        };
        Rng q{r.g()};
        attempt("texts", [&] {
            auto p = read(q);
            std::vector<data> keep;
            tape t;
            for (u64 n = r(20); n > 0; --n) {
                if (auto d = p.next())
                    keep.push_back(std::move(*d));
                if (r.p(0.1))
                    p.reset();
            }
            p.record_position(t);
            auto p2 = read(q);
            t.rewind();
            p2.reload_position(t);
            while (auto d = p2.next())
                keep.push_back(std::move(*d));
            for (const data &d : keep)
                digest(d);
            count("lines", static_cast<long>(keep.size()));
        });
    }
    }
}

int
main(int argc, char **argv)
{
    // driver MODE FIRST COUNT DIR
    std::string mode = argv[1];
    u64 first = std::strtoull(argv[2], nullptr, 10), n = std::strtoull(argv[3], nullptr, 10);
    dir = argv[4];
    conc = mode == "conc";
    damages = mode == "damage";
    Rng r{99};
    for (int i = 0; i < 6; ++i) {
        std::ofstream o{dir / ("t" + std::to_string(i) + ".txt"), std::ios::binary};
        for (u64 k = r(40); k > 0; --k)
            o << chars(r) << (r.p(0.8) ? "\n" : "\r\n");
        if (i == 5)
            o << "\xff\xfe bad \xC3\n";
    }
    auto status = ::open((dir / "status").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::set<u64> sigs;
    for (u64 i = first; i < first + n; ++i) {
        char buf[64];
        int len = std::snprintf(buf, sizeof buf, "%20" PRIu64 "\n", i);
        (void)!::pwrite(status, buf, static_cast<std::size_t>(len), 0);
        long before = live;
        order = 0;
        calls = 0;
        if (mode == "kit")
            kit(mix(i));
        else
            program(mix(i));
        count("programs");
        count("calls", static_cast<long>(calls.load()));
        sigs.insert(order.load());
        if (live != before) {
            std::fprintf(stderr, "LEAKED %ld examples in program %" PRIu64 "\n", live - before, i);
            return 3;
        }
    }
    counts["interleavings"] = static_cast<long>(sigs.size());
    std::printf("{");
    const char *sep = "";
    for (const auto &[k, v] : counts) {
        std::printf("%s\"%s\": %ld", sep, k.c_str(), v);
        sep = ", ";
    }
    std::printf("}\n");
    return 0;
}
