// Instrumented stand-in for the part of Kokkos (4.x API) that HERACLES++ uses, written for runtime monitoring:
//  * every element access is bounds-checked,
//  * "device" and "host" memory are distinct allocations and accesses from the wrong side are reported,
//  * kernels run their iterations in a seeded random order, or really in parallel (ThreadSanitizer builds),
//  * reductions are split into randomly sized chunks joined in random order.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <initializer_list>
#include <iosfwd>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

#include "Kokkos_Array.hpp"
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
#include "Kokkos_MathematicalFunctions.hpp"
#include "Kokkos_MinMaxClampImpl.hpp"
#include "Kokkos_Pair.hpp"
#include "Kokkos_Printf.hpp"

namespace Kokkos {

// ------------------------------------------------------------------ spaces
struct LayoutLeft;
struct LayoutRight;
struct LayoutStride;
struct Serial;
struct ShimDevice;

struct HostSpace
{
    using memory_space = HostSpace;
    using execution_space = Serial;
    using device_type = HostSpace;
    static constexpr bool is_memory_space_tag = true;
    static constexpr char const* name() { return "Host"; }
};
struct ShimDeviceSpace
{
    using memory_space = ShimDeviceSpace;
    using execution_space = ShimDevice;
    static constexpr bool is_memory_space_tag = true;
    static constexpr char const* name() { return "ShimDevice"; }
};
struct SharedHostPinnedSpace
{
    using memory_space = SharedHostPinnedSpace;
    using execution_space = ShimDevice;
    static constexpr bool is_memory_space_tag = true;
    static constexpr char const* name() { return "SharedHostPinned"; }
};
using SharedSpace = SharedHostPinnedSpace;
struct Serial
{
    using execution_space = Serial;
    using memory_space = HostSpace;
    static constexpr bool is_exec_space_tag = true;
    static char const* name() { return "Serial"; }
    void fence(std::string const& = "") const {}
    int concurrency() const { return 1; }
};
struct ShimDevice
{
    using execution_space = ShimDevice;
    using memory_space = ShimDeviceSpace;
    static constexpr bool is_exec_space_tag = true;
    static char const* name() { return "ShimDevice"; }
    void fence(std::string const& = "") const {}
    int concurrency() const { return 4; }
};
using DefaultExecutionSpace = ShimDevice;
using DefaultHostExecutionSpace = Serial;

template <unsigned F = 0>
struct MemoryTraits
{
    static constexpr bool is_memory_traits_tag = true;
};
using MemoryUnmanaged = MemoryTraits<1>;
using MemoryManaged = MemoryTraits<0>;
enum MemoryTraitsFlags { Unmanaged = 0x01, RandomAccess = 0x02, Atomic = 0x04, Restrict = 0x08, Aligned = 0x10 };

template <class E, class M>
struct Device
{
    using execution_space = E;
    using memory_space = M;
    static constexpr bool is_device_tag = true;
};

constexpr std::size_t KOKKOS_INVALID_INDEX = ~std::size_t(0);
namespace Impl {
struct LayoutBase
{
    std::size_t dimension[8];
    constexpr LayoutBase(
            std::size_t a = KOKKOS_INVALID_INDEX,
            std::size_t b = KOKKOS_INVALID_INDEX,
            std::size_t c = KOKKOS_INVALID_INDEX,
            std::size_t d = KOKKOS_INVALID_INDEX,
            std::size_t e = KOKKOS_INVALID_INDEX,
            std::size_t f = KOKKOS_INVALID_INDEX,
            std::size_t g = KOKKOS_INVALID_INDEX,
            std::size_t h = KOKKOS_INVALID_INDEX)
        : dimension {a, b, c, d, e, f, g, h}
    {
    }
    friend bool operator==(LayoutBase const& x, LayoutBase const& y) { return std::equal(x.dimension, x.dimension + 8, y.dimension); }
};
} // namespace Impl
struct LayoutLeft : Impl::LayoutBase
{
    using Impl::LayoutBase::LayoutBase;
    static constexpr bool is_layout_tag = true;
    using array_layout = LayoutLeft;
};
struct LayoutRight : Impl::LayoutBase
{
    using Impl::LayoutBase::LayoutBase;
    static constexpr bool is_layout_tag = true;
    using array_layout = LayoutRight;
};
struct LayoutStride : Impl::LayoutBase
{
    using Impl::LayoutBase::LayoutBase;
    static constexpr bool is_layout_tag = true;
    using array_layout = LayoutStride;
    std::size_t stride[8] {};
};

struct ALL_t
{
    constexpr bool operator==(ALL_t const&) const { return true; }
    constexpr ALL_t const& operator()() const { return *this; }
};
inline constexpr ALL_t ALL {};

struct WithoutInitializing_t {};
inline constexpr WithoutInitializing_t WithoutInitializing {};
struct SequentialHostInit_t {};
inline constexpr SequentialHostInit_t SequentialHostInit {};

namespace Impl {
struct ViewCtorProp
{
    std::string label;
    bool init = true;
};
inline void set_prop(ViewCtorProp& p, std::string const& l) { p.label = l; }
inline void set_prop(ViewCtorProp& p, char const* l) { p.label = l; }
inline void set_prop(ViewCtorProp& p, WithoutInitializing_t) { p.init = false; }
template <class T>
inline void set_prop(ViewCtorProp&, T const&)
{
}
} // namespace Impl
template <class... A>
Impl::ViewCtorProp view_alloc(A const&... a)
{
    Impl::ViewCtorProp p;
    (Impl::set_prop(p, a), ...);
    return p;
}

// ------------------------------------------------------------------ traits
namespace Impl {
template <class T, class = void> struct is_layout : std::false_type {};
template <class T> struct is_layout<T, std::void_t<decltype(T::is_layout_tag)>> : std::true_type {};
template <class T, class = void> struct is_mem : std::false_type {};
template <class T> struct is_mem<T, std::void_t<decltype(T::is_memory_space_tag)>> : std::true_type {};
template <class T, class = void> struct is_exec : std::false_type {};
template <class T> struct is_exec<T, std::void_t<decltype(T::is_exec_space_tag)>> : std::true_type {};
template <class T, class = void> struct is_dev : std::false_type {};
template <class T> struct is_dev<T, std::void_t<decltype(T::is_device_tag)>> : std::true_type {};
template <class T, class = void> struct is_mtraits : std::false_type {};
template <class T> struct is_mtraits<T, std::void_t<decltype(T::is_memory_traits_tag)>> : std::true_type {};

template <class D> struct DataAnalysis
{
    using value = D;
    static constexpr unsigned rank = 0, dynamic = 0;
    static void statics(std::size_t*) {}
};
template <class D> struct DataAnalysis<D*>
{
    using value = typename DataAnalysis<D>::value;
    static constexpr unsigned rank = DataAnalysis<D>::rank + 1, dynamic = DataAnalysis<D>::dynamic + 1;
};
template <class D, std::size_t N> struct DataAnalysis<D[N]>
{
    using value = typename DataAnalysis<D>::value;
    static constexpr unsigned rank = DataAnalysis<D>::rank + 1, dynamic = DataAnalysis<D>::dynamic;
};
// static extents (outermost bracket is the first static dimension)
template <class D> struct StaticDims { static void get(std::size_t*, unsigned) {} };
template <class D> struct StaticDims<D*> { static void get(std::size_t* o, unsigned i) { (void)o; (void)i; } };
template <class D, std::size_t N> struct StaticDims<D[N]> { static void get(std::size_t* o, unsigned i) { o[i] = N; StaticDims<D>::get(o, i + 1); } };

template <class D, class V> struct Rebind { using type = V; };
template <class D, class V> struct Rebind<D*, V> { using type = typename Rebind<D, V>::type*; };
template <class D, std::size_t N, class V> struct Rebind<D[N], V> { using type = typename Rebind<D, V>::type[N]; };
template <class V, unsigned R> struct AddPtr { using type = typename AddPtr<V, R - 1>::type*; };
template <class V> struct AddPtr<V, 0> { using type = V; };

template <class Def, template <class, class> class Pred, class... P> struct FindProp { using type = Def; };
template <class Def, template <class, class> class Pred, class H, class... P>
struct FindProp<Def, Pred, H, P...>
{
    using type = std::conditional_t<Pred<H, void>::value, H, typename FindProp<Def, Pred, P...>::type>;
};
template <class... P> struct SpaceOf { using mem = DefaultExecutionSpace::memory_space; using exec = DefaultExecutionSpace; };
template <class H, class... P>
struct SpaceOf<H, P...>
{
    static auto pick()
    {
        if constexpr (is_mem<H>::value || is_exec<H>::value || is_dev<H>::value) {
            return std::type_identity<typename H::memory_space>();
        } else {
            return std::type_identity<typename SpaceOf<P...>::mem>();
        }
    }
    using mem = typename decltype(pick())::type;
    using exec = typename mem::execution_space;
};
} // namespace Impl

template <class DataType, class... Props>
struct ViewTraits
{
    using data_type = DataType;
    using value_type = typename Impl::DataAnalysis<DataType>::value;
    using const_value_type = std::add_const_t<value_type>;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_data_type = typename Impl::Rebind<DataType, const_value_type>::type;
    using non_const_data_type = typename Impl::Rebind<DataType, non_const_value_type>::type;
    using array_layout = typename Impl::FindProp<LayoutLeft, Impl::is_layout, Props...>::type;
    using memory_space = typename Impl::SpaceOf<Props...>::mem;
    using execution_space = typename Impl::SpaceOf<Props...>::exec;
    using device_type = Device<execution_space, memory_space>;
    using memory_traits = typename Impl::FindProp<MemoryTraits<>, Impl::is_mtraits, Props...>::type;
    using size_type = std::size_t;
    using scalar_array_type = data_type;
    struct HostMirror
    {
        using memory_space = HostSpace;
        using execution_space = Serial;
    };
    using host_mirror_space = HostMirror;
    using HostMirrorSpace = HostMirror;
    struct dimension
    {
        static constexpr unsigned rank = Impl::DataAnalysis<DataType>::rank;
        static constexpr unsigned rank_dynamic = Impl::DataAnalysis<DataType>::dynamic;
    };
    static constexpr unsigned rank = dimension::rank;
    static constexpr unsigned rank_dynamic = dimension::rank_dynamic;
};

namespace Impl {
struct Alloc
{
    void* p = nullptr;
    std::size_t bytes = 0;
    std::string label;
    Alloc(std::size_t b, std::string l, bool device) : bytes(b), label(std::move(l))
    {
        p = std::malloc(b ? b : 1);
        if (p == nullptr) { throw std::bad_alloc(); }
        ::vshim::register_alloc(p, b, label, device);
        ::vshim::stats().views++;
    }
    ~Alloc()
    {
        ::vshim::unregister_alloc(p);
        std::free(p);
    }
    Alloc(Alloc const&) = delete;
    Alloc& operator=(Alloc const&) = delete;
};
[[noreturn]] inline void oob(std::string const& label, std::size_t const* ext, unsigned rank, long const* idx)
{
    std::ostringstream ss;
    ss << "View '" << label << "' index (";
    for (unsigned i = 0; i < rank; ++i) { ss << (i ? "," : "") << idx[i]; }
    ss << ") extents (";
    for (unsigned i = 0; i < rank; ++i) { ss << (i ? "," : "") << ext[i]; }
    ss << ")";
    ::vshim::violation("view-out-of-bounds", ss.str());
}
[[noreturn]] inline void badspace(std::string const& label, bool device)
{
    ::vshim::violation("memory-space", "View '" + label + (device ? "' lives on the device but was accessed by host code" : "' lives on the host but was accessed inside a device kernel"));
}
template <class Space> constexpr bool is_device_only = std::is_same_v<Space, ShimDeviceSpace>;
template <class Space> constexpr bool is_host_only = std::is_same_v<Space, HostSpace>;
} // namespace Impl

template <class DataType, class... Props>
class View : public ViewTraits<DataType, Props...>
{
public:
    using traits = ViewTraits<DataType, Props...>;
    using value_type = typename traits::value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using const_value_type = typename traits::const_value_type;
    using memory_space = typename traits::memory_space;
    using array_layout = typename traits::array_layout;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = std::size_t;
    using const_type = View<typename traits::const_data_type, array_layout, memory_space, typename traits::memory_traits>;
    using non_const_type = View<typename traits::non_const_data_type, array_layout, memory_space, typename traits::memory_traits>;
    using HostMirror = View<typename traits::non_const_data_type, array_layout, HostSpace>;
    using host_mirror_type = HostMirror;
    static constexpr unsigned Rank = traits::dimension::rank;
    static constexpr unsigned shim_rank = Rank;
    struct rank_t
    {
        constexpr operator std::size_t() const { return Rank; }
        constexpr std::size_t operator()() const { return Rank; }
    };
    static constexpr rank_t rank {};
    static constexpr std::size_t rank_dynamic = traits::dimension::rank_dynamic;

    // state (public so that other View instantiations can share it)
    std::shared_ptr<Impl::Alloc> m_alloc;
    value_type* m_ptr = nullptr;
    std::size_t m_ext[8] {1, 1, 1, 1, 1, 1, 1, 1};
    std::size_t m_str[8] {};

private:
    void set_strides()
    {
        if constexpr (std::is_same_v<array_layout, LayoutRight>) {
            std::size_t s = 1;
            for (int i = static_cast<int>(Rank) - 1; i >= 0; --i) {
                m_str[i] = s;
                s *= m_ext[i];
            }
        } else {
            std::size_t s = 1;
            for (unsigned i = 0; i < Rank; ++i) {
                m_str[i] = s;
                s *= m_ext[i];
            }
        }
    }
    void allocate(std::string const& label, bool init)
    {
        if constexpr (traits::dimension::rank_dynamic != Rank) {
            // static extents come after the dynamic ones; peel pointers
            using Inner = std::remove_pointer_t<DataType>;
            (void)sizeof(Inner*);
            Impl::StaticDims<typename PeelPtr<DataType>::type>::get(m_ext, traits::dimension::rank_dynamic);
        }
        set_strides();
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) { n *= m_ext[i]; }
        if (n * sizeof(value_type) > (std::size_t(1) << 34)) { throw std::runtime_error("Kokkos shim: allocation too large: " + label); }
        m_alloc = std::make_shared<Impl::Alloc>(n * sizeof(value_type), label, Impl::is_device_only<memory_space>);
        m_ptr = static_cast<value_type*>(m_alloc->p);
        auto* q = const_cast<non_const_value_type*>(m_ptr);
        if (init) {
            for (std::size_t i = 0; i < n; ++i) { new (q + i) non_const_value_type(); }
        } else if constexpr (std::is_floating_point_v<non_const_value_type>) {
            for (std::size_t i = 0; i < n; ++i) { q[i] = std::numeric_limits<non_const_value_type>::signaling_NaN(); }
        } else {
            std::memset(static_cast<void*>(q), 0xA5, n * sizeof(value_type));
        }
    }
    template <class D> struct PeelPtr { using type = D; };
    template <class D> struct PeelPtr<D*> { using type = typename PeelPtr<D>::type; };

    template <class... I>
    void set_ext(I... n)
    {
        static_assert(sizeof...(I) == rank_dynamic || sizeof...(I) == Rank || sizeof...(I) == 8, "wrong number of extents");
        std::size_t v[] = {static_cast<std::size_t>(n)..., 0};
        for (unsigned i = 0; i < sizeof...(I) && i < Rank; ++i) { m_ext[i] = v[i]; }
    }
    void check_space() const
    {
        if constexpr (Impl::is_device_only<memory_space>) {
            if (::vshim::tl_in_kernel == 0 && ::vshim::config().check_space) { Impl::badspace(label(), true); }
        } else if constexpr (Impl::is_host_only<memory_space>) {
            if (::vshim::tl_in_kernel != 0 && ::vshim::config().check_space) { Impl::badspace(label(), false); }
        }
    }

public:
    View() = default;
    View(View const&) = default;
    View(View&&) noexcept = default;
    View& operator=(View const&) = default;
    View& operator=(View&&) noexcept = default;
    ~View() = default;

    template <class D2, class... P2>
        requires(
                View<D2, P2...>::shim_rank == Rank && std::is_same_v<typename View<D2, P2...>::non_const_value_type, non_const_value_type>
                && (std::is_const_v<value_type> || !std::is_const_v<typename View<D2, P2...>::value_type>)
                && std::is_same_v<typename View<D2, P2...>::memory_space, memory_space>
                && (std::is_same_v<typename View<D2, P2...>::array_layout, array_layout> || std::is_same_v<array_layout, LayoutStride>
                    || Rank <= 1 || std::is_same_v<typename View<D2, P2...>::array_layout, LayoutStride>))
    View(View<D2, P2...> const& o) : m_alloc(o.m_alloc), m_ptr(o.m_ptr)
    {
        std::copy(o.m_ext, o.m_ext + 8, m_ext);
        std::copy(o.m_str, o.m_str + 8, m_str);
    }

    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...))
    explicit View(std::string const& label, I... n)
    {
        set_ext(n...);
        allocate(label, true);
    }
    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...))
    explicit View(char const* label, I... n)
    {
        set_ext(n...);
        allocate(label, true);
    }
    View(std::string const& label, array_layout const& l)
    {
        for (unsigned i = 0; i < Rank; ++i) { m_ext[i] = l.dimension[i]; }
        allocate(label, true);
    }
    View(Impl::ViewCtorProp const& prop, array_layout const& l)
    {
        for (unsigned i = 0; i < Rank; ++i) { m_ext[i] = l.dimension[i]; }
        allocate(prop.label, prop.init);
    }
    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...))
    explicit View(Impl::ViewCtorProp const& prop, I... n)
    {
        set_ext(n...);
        allocate(prop.label, prop.init);
    }
    // unmanaged
    template <class... I>
        requires((std::is_convertible_v<I, std::size_t> && ...) && sizeof...(I) == Rank)
    explicit View(value_type* p, I... n) : m_ptr(p)
    {
        set_ext(n...);
        set_strides();
    }
    // as in Kokkos: View(view, slices...) is a subview
    template <class D2, class... P2, class A0, class... A>
    View(View<D2, P2...> const& src, A0 const& a0, A const&... a);

    template <class... I>
        requires(sizeof...(I) == Rank && (std::is_convertible_v<I, long> && ...))
    value_type& operator()(I const&... i) const
    {
        check_space();
        if constexpr (Rank == 0) {
            if (m_ptr == nullptr) { ::vshim::violation("view-null", "access to an unallocated View"); }
            return *m_ptr;
        } else {
            long const idx[] = {static_cast<long>(i)...};
            std::size_t off = 0;
            for (unsigned d = 0; d < Rank; ++d) {
                if (static_cast<std::size_t>(idx[d]) >= m_ext[d]) { Impl::oob(label(), m_ext, Rank, idx); }
                off += static_cast<std::size_t>(idx[d]) * m_str[d];
            }
            if (m_ptr == nullptr) { ::vshim::violation("view-null", "access to an unallocated View"); }
            return m_ptr[off];
        }
    }
    template <class I>
        requires(Rank == 1 && std::is_convertible_v<I, long>)
    value_type& operator[](I const& i) const
    {
        return (*this)(i);
    }
    template <class... I>
    value_type& access(I const&... i) const
    {
        return (*this)(i...);
    }

    // raw element (monitor use: no side checks)
    value_type& raw(std::size_t a = 0, std::size_t b = 0, std::size_t c = 0, std::size_t d = 0, std::size_t e = 0, std::size_t f = 0) const
    {
        return m_ptr[a * m_str[0] + b * m_str[1] + c * m_str[2] + d * m_str[3] + e * m_str[4] + f * m_str[5]];
    }

    value_type* data() const { return m_ptr; }
    std::string label() const { return m_alloc ? m_alloc->label : std::string(); }
    bool is_allocated() const { return m_ptr != nullptr; }
    long use_count() const { return m_alloc ? m_alloc.use_count() : 0; }
    template <class I>
    constexpr std::size_t extent(I const& r) const
    {
        return static_cast<std::size_t>(r) < Rank ? m_ext[r] : 1;
    }
    template <class I>
    constexpr int extent_int(I const& r) const
    {
        return static_cast<int>(extent(r));
    }
    template <class I>
    constexpr std::size_t stride(I const& r) const
    {
        return static_cast<std::size_t>(r) < Rank ? m_str[r] : span();
    }
    std::size_t stride_0() const { return m_str[0]; }
    std::size_t stride_1() const { return m_str[1]; }
    std::size_t stride_2() const { return m_str[2]; }
    std::size_t size() const
    {
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) { n *= m_ext[i]; }
        return n;
    }
    constexpr std::size_t span() const
    {
        std::size_t n = 1;
        for (unsigned i = 0; i < Rank; ++i) {
            if (m_ext[i] == 0) { return 0; }
            n += (m_ext[i] - 1) * m_str[i];
        }
        return n;
    }
    bool span_is_contiguous() const { return span() == size(); }
    array_layout layout() const
    {
        array_layout l;
        for (unsigned i = 0; i < Rank; ++i) { l.dimension[i] = m_ext[i]; }
        if constexpr (std::is_same_v<array_layout, LayoutStride>) {
            for (unsigned i = 0; i < Rank; ++i) { l.stride[i] = m_str[i]; }
        }
        return l;
    }
};
template <class D1, class... P1, class D2, class... P2>
bool operator==(View<D1, P1...> const& a, View<D2, P2...> const& b)
{
    return a.shim_rank == b.shim_rank && static_cast<void const*>(a.data()) == static_cast<void const*>(b.data())
           && std::equal(a.m_ext, a.m_ext + 8, b.m_ext) && (a.span() == b.span());
}
template <class D1, class... P1, class D2, class... P2>
bool operator!=(View<D1, P1...> const& a, View<D2, P2...> const& b)
{
    return !(a == b);
}

template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class D, class... P> struct is_view<View<D, P...> const> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;

// ------------------------------------------------------------------ subview
namespace Impl {
template <class A> struct is_range_arg : std::bool_constant<!std::is_integral_v<A> && !std::is_enum_v<A>> {};
struct SubBuild
{
    std::size_t off = 0;
    unsigned r = 0;
    std::size_t ext[8] {1, 1, 1, 1, 1, 1, 1, 1};
    std::size_t str[8] {};
    template <class V, class A>
    void arg(V const& v, unsigned d, A const& a)
    {
        if constexpr (std::is_same_v<std::remove_cvref_t<A>, ALL_t>) {
            ext[r] = v.m_ext[d];
            str[r++] = v.m_str[d];
        } else if constexpr (std::is_integral_v<std::remove_cvref_t<A>>) {
            long idx = static_cast<long>(a);
            if (idx < 0 || static_cast<std::size_t>(idx) >= v.m_ext[d]) {
                ::vshim::violation("subview-out-of-bounds", "View '" + v.label() + "' dim " + std::to_string(d) + " index " + std::to_string(idx) + " extent " + std::to_string(v.m_ext[d]));
            }
            off += static_cast<std::size_t>(idx) * v.m_str[d];
        } else {
            auto const [b0, e0] = bounds(a);
            long b = b0;
            long e = e0;
            if (b < 0 || e < b || static_cast<std::size_t>(e) > v.m_ext[d]) {
                ::vshim::violation("subview-out-of-bounds", "View '" + v.label() + "' dim " + std::to_string(d) + " range [" + std::to_string(b) + "," + std::to_string(e) + ") extent " + std::to_string(v.m_ext[d]));
            }
            off += static_cast<std::size_t>(b) * v.m_str[d];
            ext[r] = static_cast<std::size_t>(e - b);
            str[r++] = v.m_str[d];
        }
    }
    template <class A, class B>
    static std::pair<long, long> bounds(Kokkos::pair<A, B> const& p) { return {static_cast<long>(p.first), static_cast<long>(p.second)}; }
    template <class A, class B>
    static std::pair<long, long> bounds(std::pair<A, B> const& p) { return {static_cast<long>(p.first), static_cast<long>(p.second)}; }
};
} // namespace Impl

template <class D, class... P, class... A>
auto subview(View<D, P...> const& v, A const&... a)
{
    using V = View<D, P...>;
    static_assert(sizeof...(A) == V::shim_rank, "subview: wrong number of slice arguments");
    constexpr unsigned R = (0U + ... + (Impl::is_range_arg<std::remove_cvref_t<A>>::value ? 1U : 0U));
    Impl::SubBuild sb;
    unsigned d = 0;
    (sb.arg(v, d++, a), ...);
    View<typename Impl::AddPtr<typename V::value_type, R>::type, typename V::array_layout, typename V::memory_space, typename V::memory_traits> out;
    out.m_alloc = v.m_alloc;
    out.m_ptr = v.m_ptr == nullptr ? nullptr : v.m_ptr + sb.off;
    for (unsigned i = 0; i < R; ++i) {
        out.m_ext[i] = sb.ext[i];
        out.m_str[i] = sb.str[i];
    }
    return out;
}
template <class V, class... A>
using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

template <class DataType, class... Props>
template <class D2, class... P2, class A0, class... A>
View<DataType, Props...>::View(View<D2, P2...> const& src, A0 const& a0, A const&... a) : View(subview(src, a0, a...))
{
}

// ------------------------------------------------------------------ deep_copy
namespace Impl {
template <unsigned R, class F>
void for_each_index(std::size_t const* ext, F const& f)
{
    std::size_t i[8] {};
    for (unsigned d = 0; d < R; ++d) {
        if (ext[d] == 0) { return; }
    }
    for (;;) {
        f(i);
        unsigned d = 0;
        for (; d < R; ++d) {
            if (++i[d] < ext[d]) { break; }
            i[d] = 0;
        }
        if (d == R) { return; }
    }
}
template <class V>
std::size_t offset(V const& v, std::size_t const* i)
{
    std::size_t o = 0;
    for (unsigned d = 0; d < V::shim_rank; ++d) { o += i[d] * v.m_str[d]; }
    return o;
}
} // namespace Impl

template <class DD, class... DP, class SD, class... SP>
void deep_copy(View<DD, DP...> const& dst, View<SD, SP...> const& src)
{
    using VD = View<DD, DP...>;
    using VS = View<SD, SP...>;
    static_assert(VD::shim_rank == VS::shim_rank, "deep_copy: ranks differ");
    static_assert(!std::is_const_v<typename VD::value_type>, "deep_copy to const view");
    ::vshim::stats().deep_copies++;
    bool same = true;
    for (unsigned d = 0; d < VD::shim_rank; ++d) { same = same && dst.m_ext[d] == src.m_ext[d]; }
    if (!same) {
        ::vshim::violation("deep-copy-extents", "deep_copy between views with different extents: '" + dst.label() + "' and '" + src.label() + "'");
    }
    if (dst.size() == 0) { return; }
    // no execution space reaches both sides: Kokkos then needs identical contiguous layouts
    constexpr bool cross = (Impl::is_device_only<typename VD::memory_space> && Impl::is_host_only<typename VS::memory_space>)
                           || (Impl::is_host_only<typename VD::memory_space> && Impl::is_device_only<typename VS::memory_space>);
    if constexpr (cross) {
        ::vshim::stats().hd_copies++;
        bool eq = dst.span_is_contiguous() && src.span_is_contiguous();
        for (unsigned d = 0; d < VD::shim_rank; ++d) { eq = eq && (dst.m_str[d] == src.m_str[d] || dst.m_ext[d] == 1); }
        if (!eq) {
            ::vshim::violation("deep-copy-noncontiguous", "deep_copy between memory spaces with incompatible layouts: '" + dst.label() + "' and '" + src.label() + "'");
        }
    }
    if (static_cast<void const*>(dst.m_ptr) == static_cast<void const*>(src.m_ptr)) { return; }
    Impl::for_each_index<VD::shim_rank>(dst.m_ext, [&](std::size_t const* i) { dst.m_ptr[Impl::offset(dst, i)] = src.m_ptr[Impl::offset(src, i)]; });
}
template <class DD, class... DP>
void deep_copy(View<DD, DP...> const& dst, typename View<DD, DP...>::const_value_type& val)
{
    ::vshim::stats().deep_copies++;
    Impl::for_each_index<View<DD, DP...>::shim_rank>(dst.m_ext, [&](std::size_t const* i) { dst.m_ptr[Impl::offset(dst, i)] = val; });
}
template <class SD, class... SP>
    requires(View<SD, SP...>::shim_rank == 0)
void deep_copy(typename View<SD, SP...>::non_const_value_type& dst, View<SD, SP...> const& src)
{
    dst = *src.m_ptr;
}
template <class E, class A, class B>
    requires(Impl::is_exec<E>::value)
void deep_copy(E const&, A&& a, B&& b)
{
    deep_copy(std::forward<A>(a), std::forward<B>(b));
}

template <class D, class... P>
auto create_mirror(View<D, P...> const& v)
{
    typename View<D, P...>::HostMirror m;
    using H = typename View<D, P...>::HostMirror;
    return H(v.label() + "_mirror", [&] {
        typename H::array_layout l;
        for (unsigned i = 0; i < H::shim_rank; ++i) { l.dimension[i] = v.m_ext[i]; }
        return l;
    }());
}
template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v)
{
    if constexpr (std::is_same_v<typename View<D, P...>::memory_space, HostSpace>) {
        return typename View<D, P...>::HostMirror(v);
    } else {
        return create_mirror(v);
    }
}
template <class D, class... P>
auto create_mirror(WithoutInitializing_t, View<D, P...> const& v) { return create_mirror(v); }
template <class D, class... P>
auto create_mirror_view(WithoutInitializing_t, View<D, P...> const& v) { return create_mirror_view(v); }
template <class Sp, class D, class... P>
    requires requires { typename Sp::memory_space; }
auto create_mirror(Sp const&, View<D, P...> const& v)
{
    using VS = View<D, P...>;
    typename VS::array_layout l;
    for (unsigned i = 0; i < VS::shim_rank; ++i) { l.dimension[i] = v.m_ext[i]; }
    return View<typename VS::non_const_data_type, typename VS::array_layout, typename Sp::memory_space>(v.label() + "_mirror", l);
}
template <class Sp, class D, class... P>
    requires requires { typename Sp::memory_space; }
auto create_mirror_view(Sp const& sp, View<D, P...> const& v)
{
    if constexpr (std::is_same_v<typename View<D, P...>::memory_space, typename Sp::memory_space>) {
        return v;
    } else {
        return create_mirror(sp, v);
    }
}
template <class Sp, class D, class... P>
auto create_mirror_view_and_copy(Sp const&, View<D, P...> const& v, std::string const& = "")
{
    using VS = View<D, P...>;
    if constexpr (std::is_same_v<typename VS::memory_space, typename Sp::memory_space>) {
        return v;
    } else {
        View<typename VS::non_const_data_type, typename VS::array_layout, typename Sp::memory_space> m(v.label(), [&] {
            typename VS::array_layout l;
            for (unsigned i = 0; i < VS::shim_rank; ++i) { l.dimension[i] = v.m_ext[i]; }
            return l;
        }());
        deep_copy(m, v);
        return m;
    }
}
template <class D, class... P, class... I>
void realloc(View<D, P...>& v, I... n)
{
    v = View<D, P...>(v.label(), n...);
}
template <class D, class... P, class... I>
void resize(View<D, P...>& v, I... n)
{
    View<D, P...> w(v.label(), n...);
    std::size_t ext[8];
    for (unsigned d = 0; d < 8; ++d) { ext[d] = std::min(v.m_ext[d], w.m_ext[d]); }
    if (v.m_ptr != nullptr) {
        Impl::for_each_index<View<D, P...>::shim_rank>(ext, [&](std::size_t const* i) { w.m_ptr[Impl::offset(w, i)] = v.m_ptr[Impl::offset(v, i)]; });
    }
    v = w;
}

template <class D, class... P, class... I>
void realloc(WithoutInitializing_t, View<D, P...>& v, I... n)
{
    v = View<D, P...>(view_alloc(v.label(), WithoutInitializing), n...);
}
template <class D, class... P, class... I>
void resize(WithoutInitializing_t, View<D, P...>& v, I... n)
{
    resize(v, n...);
}
template <class D, class... P>
void realloc(View<D, P...>& v, typename View<D, P...>::array_layout const& l)
{
    v = View<D, P...>(v.label(), l);
}
template <class T>
void kokkos_swap(T& a, T& b) { std::swap(a, b); }

// ------------------------------------------------------------------ policies
template <class T> struct IndexType { using type = T; };
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr unsigned rank = N; };
struct ParallelForTag {};
struct Static {};
struct Dynamic {};
template <class T> struct Schedule {};
template <class... T> struct LaunchBounds {};

namespace Impl {
template <class T> struct idx_of { using type = void; };
template <class T> struct idx_of<IndexType<T>> { using type = T; };
template <class T> requires std::is_integral_v<T> struct idx_of<T> { using type = T; };
template <class Def, class... P> struct FindIdx { using type = Def; };
template <class Def, class H, class... P>
struct FindIdx<Def, H, P...>
{
    using type = std::conditional_t<std::is_void_v<typename idx_of<H>::type>, typename FindIdx<Def, P...>::type, typename idx_of<H>::type>;
};
template <class... P> struct FindRank { static constexpr unsigned value = 0; };
template <unsigned N, Iterate O, Iterate I, class... P> struct FindRank<Rank<N, O, I>, P...> { static constexpr unsigned value = N; };
template <class H, class... P> struct FindRank<H, P...> { static constexpr unsigned value = FindRank<P...>::value; };
template <class T> struct is_rank : std::false_type {};
template <unsigned N, Iterate O, Iterate I> struct is_rank<Rank<N, O, I>> : std::true_type {};
template <class T> struct is_sched : std::false_type {};
template <class T> struct is_sched<Schedule<T>> : std::true_type {};
template <class... T> struct is_sched<LaunchBounds<T...>> : std::true_type {};
template <class T> constexpr bool is_tag = std::is_class_v<T> && std::is_empty_v<T> && !is_exec<T>::value && !is_mem<T>::value && std::is_void_v<typename idx_of<T>::type> && !is_rank<T>::value && !is_sched<T>::value;
template <class... P> struct FindTag { using type = void; };
template <class H, class... P>
struct FindTag<H, P...> { using type = std::conditional_t<is_tag<H>, H, typename FindTag<P...>::type>; };
template <class... P> struct FindExec { using type = DefaultExecutionSpace; };
template <class H, class... P>
struct FindExec<H, P...> { using type = std::conditional_t<is_exec<H>::value, H, typename FindExec<P...>::type>; };
} // namespace Impl

template <class... P>
struct RangePolicy
{
    using index_type = typename Impl::FindIdx<std::int64_t, P...>::type;
    using member_type = index_type;
    using execution_space = typename Impl::FindExec<P...>::type;
    using work_tag = typename Impl::FindTag<P...>::type;
    std::int64_t b = 0, e = 0;
    RangePolicy() = default;
    template <class A, class B>
    RangePolicy(A b_, B e_) : b(static_cast<std::int64_t>(b_)), e(static_cast<std::int64_t>(e_)) {}
    template <class X, class A, class B>
        requires(Impl::is_exec<X>::value)
    RangePolicy(X const&, A b_, B e_) : b(static_cast<std::int64_t>(b_)), e(static_cast<std::int64_t>(e_)) {}
    static constexpr unsigned shim_rank = 1;
    index_type begin() const { return static_cast<index_type>(b); }
    index_type end() const { return static_cast<index_type>(e); }
    std::int64_t lo(unsigned) const { return b; }
    std::int64_t hi(unsigned) const { return e; }
};
RangePolicy() -> RangePolicy<>;
template <class A, class B> RangePolicy(A, B) -> RangePolicy<>;

template <class... P>
struct MDRangePolicy
{
    using index_type = typename Impl::FindIdx<std::int64_t, P...>::type;
    using execution_space = typename Impl::FindExec<P...>::type;
    using work_tag = typename Impl::FindTag<P...>::type;
    static constexpr unsigned shim_rank = Impl::FindRank<P...>::value;
    static constexpr unsigned rank = shim_rank;
    using point_type = Array<std::int64_t, shim_rank>;
    using tile_type = Array<std::int64_t, shim_rank>;
    std::int64_t m_lo[shim_rank] {}, m_hi[shim_rank] {};
    MDRangePolicy() = default;
    template <class A, class B>
    MDRangePolicy(Array<A, shim_rank> const& l, Array<B, shim_rank> const& u, tile_type const& = {})
    {
        for (unsigned i = 0; i < shim_rank; ++i) {
            m_lo[i] = static_cast<std::int64_t>(l[i]);
            m_hi[i] = static_cast<std::int64_t>(u[i]);
        }
    }
    template <class A, class B, std::size_t NA, std::size_t NB>
    MDRangePolicy(A const (&l)[NA], B const (&u)[NB]) : MDRangePolicy(l, u, nullptr)
    {
    }
    template <class A, class B, class T, std::size_t NA, std::size_t NB, std::size_t NT>
    MDRangePolicy(A const (&l)[NA], B const (&u)[NB], T const (&)[NT]) : MDRangePolicy(l, u, nullptr)
    {
    }
    template <class A, class B, std::size_t NA, std::size_t NB>
    MDRangePolicy(A const (&l)[NA], B const (&u)[NB], std::nullptr_t)
    {
        static_assert(NA == shim_rank && NB == shim_rank);
        for (unsigned i = 0; i < shim_rank; ++i) {
            m_lo[i] = static_cast<std::int64_t>(l[i]);
            m_hi[i] = static_cast<std::int64_t>(u[i]);
        }
    }
    template <class X, class A, class B>
        requires(Impl::is_exec<X>::value)
    MDRangePolicy(X const&, A const& l, B const& u) : MDRangePolicy(l, u)
    {
    }
    template <class X, class A, class B, std::size_t NA, std::size_t NB>
        requires(Impl::is_exec<X>::value)
    MDRangePolicy(X const&, A const (&l)[NA], B const (&u)[NB]) : MDRangePolicy(l, u, nullptr)
    {
    }
    std::int64_t lo(unsigned d) const { return m_lo[d]; }
    std::int64_t hi(unsigned d) const { return m_hi[d]; }
};
template <class A, class B, std::size_t N> MDRangePolicy(A const (&)[N], B const (&)[N]) -> MDRangePolicy<Rank<N>>;
template <class A, class B, std::size_t N> MDRangePolicy(Array<A, N>, Array<B, N>) -> MDRangePolicy<Rank<N>>;

// ------------------------------------------------------------------ execution
namespace Impl {
template <class Pol>
std::vector<std::array<std::int64_t, 6>> list_indices(Pol const& p, bool left_fast = true)
{
    std::vector<std::array<std::int64_t, 6>> out;
    std::size_t n = 1;
    for (unsigned d = 0; d < Pol::shim_rank; ++d) {
        if (p.hi(d) <= p.lo(d)) { return out; }
        n *= static_cast<std::size_t>(p.hi(d) - p.lo(d));
    }
    out.reserve(n);
    std::array<std::int64_t, 6> i {};
    for (unsigned d = 0; d < Pol::shim_rank; ++d) { i[d] = p.lo(d); }
    for (;;) {
        out.push_back(i);
        bool done = true;
        for (unsigned q = 0; q < Pol::shim_rank; ++q) {
            unsigned d = left_fast ? q : Pol::shim_rank - 1 - q;
            if (++i[d] < p.hi(d)) {
                done = false;
                break;
            }
            i[d] = p.lo(d);
        }
        if (done) { return out; }
    }
}
inline void permute(std::vector<std::array<std::int64_t, 6>>& v)
{
    auto& c = ::vshim::config();
    if (c.order == ::vshim::Order::reverse) {
        std::reverse(v.begin(), v.end());
    } else if (c.order == ::vshim::Order::random) {
        for (std::size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[::vshim::tl_rng.below(i)]); }
    }
}
template <class Idx, unsigned R, class Tag = void, class F, class... X>
inline void call(F const& f, std::array<std::int64_t, 6> const& i, X&&... x)
{
    [&]<std::size_t... K>(std::index_sequence<K...>) {
        if constexpr (std::is_void_v<Tag>) {
            f(static_cast<Idx>(i[K])..., std::forward<X>(x)...);
        } else {
            f(Tag(), static_cast<Idx>(i[K])..., std::forward<X>(x)...);
        }
    }(std::make_index_sequence<R>());
}
template <class T> struct is_policy : std::false_type {};
template <class... P> struct is_policy<RangePolicy<P...>> : std::true_type {};
template <class... P> struct is_policy<MDRangePolicy<P...>> : std::true_type {};

template <class Pol> constexpr bool on_device = !std::is_same_v<typename Pol::execution_space, Serial>;

struct MaybeKernel
{
    bool on;
    explicit MaybeKernel(bool o) : on(o) { if (on) { ++::vshim::tl_in_kernel; } }
    ~MaybeKernel() { if (on) { --::vshim::tl_in_kernel; } }
    MaybeKernel(MaybeKernel const&) = delete;
    MaybeKernel& operator=(MaybeKernel const&) = delete;
};
template <class Pol, class F>
void run_for(Pol const& p, F const& f)
{
    using Idx = typename Pol::index_type;
    auto list = list_indices(p);
    ::vshim::stats().kernels++;
    ::vshim::stats().iterations += static_cast<long>(list.size());
    permute(list);
    int const nt = ::vshim::config().threads;
    if (nt > 1 && list.size() > 1) {
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t) {
            th.emplace_back([&, t, fcopy = f] {
                MaybeKernel const g(on_device<Pol>);
                for (std::size_t q = static_cast<std::size_t>(t); q < list.size(); q += static_cast<std::size_t>(nt)) { call<Idx, Pol::shim_rank, typename Pol::work_tag>(fcopy, list[q]); }
            });
        }
        for (auto& t : th) { t.join(); }
        return;
    }
    MaybeKernel const g(on_device<Pol>);
    for (auto const& i : list) { call<Idx, Pol::shim_rank, typename Pol::work_tag>(f, i); }
}
} // namespace Impl

template <class Pol, class F>
    requires(Impl::is_policy<Pol>::value)
void parallel_for(std::string const&, Pol const& p, F const& f)
{
    Impl::run_for(p, f);
}
template <class Pol, class F>
    requires(Impl::is_policy<Pol>::value)
void parallel_for(Pol const& p, F const& f)
{
    Impl::run_for(p, f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(std::string const&, I n, F const& f)
{
    Impl::run_for(RangePolicy<I>(0, n), f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(I n, F const& f)
{
    Impl::run_for(RangePolicy<I>(0, n), f);
}

// ------------------------------------------------------------------ reducers
template <class T>
struct reduction_identity
{
    static constexpr T sum() { return T(); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::is_floating_point_v<T> ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
    static constexpr bool land() { return true; }
    static constexpr bool lor() { return false; }
};
template <class S, class I> struct ValLocScalar { S val; I loc; };
template <class S> struct MinMaxScalar { S min_val, max_val; };

#define VSHIM_REDUCER(NAME, IDENT, JOIN)                                                                  \
    template <class Scalar, class Space = HostSpace>                                                      \
    struct NAME                                                                                           \
    {                                                                                                     \
        using value_type = std::remove_cv_t<Scalar>;                                                      \
        static constexpr bool vshim_reducer = true;                                                       \
        value_type* m_p;                                                                                  \
        std::shared_ptr<Impl::Alloc> m_keep;                                                              \
        explicit NAME(value_type& r) : m_p(&r) {}                                                         \
        template <class D, class... P>                                                                    \
            requires(View<D, P...>::shim_rank == 0)                                                       \
        explicit NAME(View<D, P...> const& v) : m_p(v.data()), m_keep(v.m_alloc)                          \
        {                                                                                                 \
        }                                                                                                 \
        value_type& reference() const { return *m_p; }                                                    \
        void init(value_type& v) const { v = IDENT; }                                                     \
        void join(value_type& d, value_type const& s) const { JOIN; }                                     \
    };                                                                                                    \
    template <class T>                                                                                    \
        requires(!is_view_v<T>)                                                                           \
    NAME(T&) -> NAME<T, HostSpace>;                                                                       \
    template <class D, class... P>                                                                        \
    NAME(View<D, P...> const&) -> NAME<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;

VSHIM_REDUCER(Sum, reduction_identity<value_type>::sum(), d += s)
VSHIM_REDUCER(Prod, reduction_identity<value_type>::prod(), d *= s)
VSHIM_REDUCER(Max, reduction_identity<value_type>::max(), if (d < s) d = s)
VSHIM_REDUCER(Min, reduction_identity<value_type>::min(), if (s < d) d = s)
VSHIM_REDUCER(LAnd, true, d = d && s)
VSHIM_REDUCER(LOr, false, d = d || s)
VSHIM_REDUCER(BAnd, static_cast<value_type>(~value_type(0)), d = d & s)
VSHIM_REDUCER(BOr, value_type(0), d = d | s)
#undef VSHIM_REDUCER

template <class Scalar, class Space = HostSpace>
struct MinMax
{
    using value_type = MinMaxScalar<std::remove_cv_t<Scalar>>;
    static constexpr bool vshim_reducer = true;
    value_type* m_p;
    explicit MinMax(value_type& r) : m_p(&r) {}
    value_type& reference() const { return *m_p; }
    void init(value_type& v) const
    {
        v.min_val = reduction_identity<Scalar>::min();
        v.max_val = reduction_identity<Scalar>::max();
    }
    void join(value_type& d, value_type const& s) const
    {
        if (s.min_val < d.min_val) { d.min_val = s.min_val; }
        if (d.max_val < s.max_val) { d.max_val = s.max_val; }
    }
};

template <class S, class I> struct MinMaxLocScalar { S min_val, max_val; I min_loc, max_loc; };
template <class T>
    requires(!is_view_v<T>)
MinMax(MinMaxScalar<T>&) -> MinMax<T, HostSpace>;
template <class Scalar, class Index, class Space = HostSpace>
struct MinLoc
{
    using value_type = ValLocScalar<std::remove_cv_t<Scalar>, std::remove_cv_t<Index>>;
    using result_view_type = View<value_type, Space>;
    static constexpr bool vshim_reducer = true;
    value_type* m_p;
    explicit MinLoc(value_type& r) : m_p(&r) {}
    value_type& reference() const { return *m_p; }
    void init(value_type& v) const
    {
        v.val = reduction_identity<Scalar>::min();
        v.loc = reduction_identity<Index>::min();
    }
    void join(value_type& d, value_type const& s) const
    {
        if (s.val < d.val) { d = s; }
    }
};
template <class Scalar, class Index, class Space = HostSpace>
struct MaxLoc
{
    using value_type = ValLocScalar<std::remove_cv_t<Scalar>, std::remove_cv_t<Index>>;
    static constexpr bool vshim_reducer = true;
    value_type* m_p;
    explicit MaxLoc(value_type& r) : m_p(&r) {}
    value_type& reference() const { return *m_p; }
    void init(value_type& v) const
    {
        v.val = reduction_identity<Scalar>::max();
        v.loc = reduction_identity<Index>::min();
    }
    void join(value_type& d, value_type const& s) const
    {
        if (d.val < s.val) { d = s; }
    }
};
template <class Scalar, class Index, class Space = HostSpace>
struct MinMaxLoc
{
    using value_type = MinMaxLocScalar<std::remove_cv_t<Scalar>, std::remove_cv_t<Index>>;
    static constexpr bool vshim_reducer = true;
    value_type* m_p;
    explicit MinMaxLoc(value_type& r) : m_p(&r) {}
    value_type& reference() const { return *m_p; }
    void init(value_type& v) const
    {
        v.min_val = reduction_identity<Scalar>::min();
        v.max_val = reduction_identity<Scalar>::max();
        v.min_loc = v.max_loc = reduction_identity<Index>::min();
    }
    void join(value_type& d, value_type const& s) const
    {
        if (s.min_val < d.min_val) { d.min_val = s.min_val; d.min_loc = s.min_loc; }
        if (d.max_val < s.max_val) { d.max_val = s.max_val; d.max_loc = s.max_loc; }
    }
};

namespace Impl {
template <class T, class = void> struct is_reducer : std::false_type {};
template <class T> struct is_reducer<T, std::void_t<decltype(T::vshim_reducer)>> : std::true_type {};

template <class R> auto wrap_reducer(R&& r)
{
    using T = std::remove_cvref_t<R>;
    if constexpr (is_reducer<T>::value) { return r; }
    else if constexpr (is_view_v<T>) { return Sum<typename T::value_type, typename T::memory_space>(r); }
    else { return Sum<T, HostSpace>(r); }
}
template <class Pol, class F, class... Red>
void run_reduce(Pol const& p, F const& f, Red&&... red)
{
    using Idx = typename Pol::index_type;
    auto reducers = std::make_tuple(wrap_reducer(std::forward<Red>(red))...);
    auto list = list_indices(p);
    ::vshim::stats().reductions++;
    ::vshim::stats().iterations += static_cast<long>(list.size());
    permute(list);
    using Vals = std::tuple<typename std::remove_cvref_t<decltype(wrap_reducer(std::forward<Red>(red)))>::value_type...>;
    auto ident = [&] {
        Vals v {};
        [&]<std::size_t... K>(std::index_sequence<K...>) { (std::get<K>(reducers).init(std::get<K>(v)), ...); }(std::index_sequence_for<Red...>());
        return v;
    };
    auto chunk = [&](std::size_t lo, std::size_t hi) {
        MaybeKernel const g(on_device<Pol>);
        Vals v = ident();
        for (std::size_t q = lo; q < hi; ++q) {
            [&]<std::size_t... K>(std::index_sequence<K...>) { call<Idx, Pol::shim_rank, typename Pol::work_tag>(f, list[q], std::get<K>(v)...); }(std::index_sequence_for<Red...>());
        }
        return v;
    };
    std::vector<Vals> parts;
    std::size_t nchunk = 1;
    if (::vshim::config().order == ::vshim::Order::random && list.size() > 1) { nchunk = 1 + ::vshim::tl_rng.below(std::min<std::size_t>(6, list.size())); }
    int const nt = ::vshim::config().threads;
    if (nt > 1) { nchunk = static_cast<std::size_t>(nt); }
    parts.resize(nchunk);
    auto bound = [&](std::size_t c) { return list.size() * c / nchunk; };
    if (nt > 1 && list.size() > 1) {
        std::vector<std::thread> th;
        for (std::size_t c = 0; c < nchunk; ++c) { th.emplace_back([&, c] { parts[c] = chunk(bound(c), bound(c + 1)); }); }
        for (auto& t : th) { t.join(); }
    } else {
        for (std::size_t c = 0; c < nchunk; ++c) { parts[c] = chunk(bound(c), bound(c + 1)); }
    }
    Vals total = ident();
    for (auto const& v : parts) {
        [&]<std::size_t... K>(std::index_sequence<K...>) { (std::get<K>(reducers).join(std::get<K>(total), std::get<K>(v)), ...); }(std::index_sequence_for<Red...>());
    }
    [&]<std::size_t... K>(std::index_sequence<K...>) { ((std::get<K>(reducers).reference() = std::get<K>(total)), ...); }(std::index_sequence_for<Red...>());
}
} // namespace Impl

template <class Pol, class F, class... Red>
    requires(Impl::is_policy<Pol>::value && sizeof...(Red) >= 1)
void parallel_reduce(std::string const&, Pol const& p, F const& f, Red&&... red)
{
    Impl::run_reduce(p, f, std::forward<Red>(red)...);
}
template <class Pol, class F, class... Red>
    requires(Impl::is_policy<Pol>::value && sizeof...(Red) >= 1)
void parallel_reduce(Pol const& p, F const& f, Red&&... red)
{
    Impl::run_reduce(p, f, std::forward<Red>(red)...);
}
template <class I, class F, class... Red>
    requires(std::is_integral_v<I> && sizeof...(Red) >= 1)
void parallel_reduce(std::string const&, I n, F const& f, Red&&... red)
{
    Impl::run_reduce(RangePolicy<I>(0, n), f, std::forward<Red>(red)...);
}

template <class I, class F, class... Red>
    requires(std::is_integral_v<I> && sizeof...(Red) >= 1)
void parallel_reduce(I n, F const& f, Red&&... red)
{
    Impl::run_reduce(RangePolicy<I>(0, n), f, std::forward<Red>(red)...);
}

namespace Impl {
template <class F> struct scan_arg;
template <class C, class R, class I, class T, class B> struct scan_arg<R (C::*)(I, T&, B) const> { using type = T; };
template <class C, class R, class I, class T, class B> struct scan_arg<R (C::*)(I, T&, B) const noexcept> { using type = T; };
template <class Pol, class F>
auto run_scan(Pol const& p, F const& f)
{
    using T = typename scan_arg<decltype(&F::operator())>::type;
    using Idx = typename Pol::index_type;
    ::vshim::stats().scans++;
    MaybeKernel const g(on_device<Pol>);
    std::int64_t const n = std::max<std::int64_t>(0, p.e - p.b);
    std::size_t nchunk = 1;
    if (::vshim::config().order == ::vshim::Order::random && n > 1) { nchunk = 1 + ::vshim::tl_rng.below(static_cast<std::uint64_t>(std::min<std::int64_t>(5, n))); }
    auto bound = [&](std::size_t c) { return p.b + n * static_cast<std::int64_t>(c) / static_cast<std::int64_t>(nchunk); };
    std::vector<T> pre(nchunk + 1, T());
    if (nchunk > 1) {
        for (std::size_t c = 0; c < nchunk; ++c) {
            T v {};
            for (std::int64_t i = bound(c); i < bound(c + 1); ++i) { f(static_cast<Idx>(i), v, false); }
            pre[c + 1] = pre[c];
            pre[c + 1] += v;
        }
    }
    T last {};
    std::vector<std::size_t> ord(nchunk);
    std::iota(ord.begin(), ord.end(), std::size_t(0));
    for (std::size_t i = nchunk; i > 1; --i) { std::swap(ord[i - 1], ord[::vshim::tl_rng.below(i)]); }
    for (std::size_t c : ord) {
        T v = pre[c];
        for (std::int64_t i = bound(c); i < bound(c + 1); ++i) { f(static_cast<Idx>(i), v, true); }
        if (c == nchunk - 1) { last = v; }
    }
    return last;
}
} // namespace Impl
template <class... P, class F>
void parallel_scan(std::string const&, RangePolicy<P...> const& p, F const& f)
{
    Impl::run_scan(p, f);
}
template <class... P, class F>
void parallel_scan(RangePolicy<P...> const& p, F const& f)
{
    Impl::run_scan(p, f);
}
template <class... P, class F, class T>
void parallel_scan(std::string const&, RangePolicy<P...> const& p, F const& f, T& total)
{
    auto r = Impl::run_scan(p, f);
    if constexpr (is_view_v<T>) { *total.data() = r; } else { total = r; }
}

template <class... P, class F, class T>
void parallel_scan(RangePolicy<P...> const& p, F const& f, T& total)
{
    parallel_scan(std::string(), p, f, total);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_scan(std::string const&, I n, F const& f)
{
    Impl::run_scan(RangePolicy<I>(0, n), f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_scan(I n, F const& f)
{
    Impl::run_scan(RangePolicy<I>(0, n), f);
}
template <class I, class F, class T>
    requires(std::is_integral_v<I>)
void parallel_scan(std::string const& l, I n, F const& f, T& total)
{
    parallel_scan(l, RangePolicy<I>(0, n), f, total);
}
template <class I, class F, class T>
    requires(std::is_integral_v<I>)
void parallel_scan(I n, F const& f, T& total)
{
    parallel_scan(std::string(), RangePolicy<I>(0, n), f, total);
}

// ------------------------------------------------------------------ teams (one thread per team)
struct AUTO_t
{
    constexpr AUTO_t const& operator()() const { return *this; }
};
inline constexpr AUTO_t AUTO {};
namespace Impl {
struct TeamMember
{
    int lr = 0;
    int ls = 1;
    int league_rank() const { return lr; }
    int league_size() const { return ls; }
    int team_rank() const { return 0; }
    int team_size() const { return 1; }
    void team_barrier() const {}
    template <class R>
    void team_reduce(R const&) const {}
    template <class T>
    void team_broadcast(T&, int) const {}
};
struct TeamRange
{
    std::int64_t b, e;
};
struct PerOne {};
} // namespace Impl
template <class... P>
struct TeamPolicy
{
    using execution_space = typename Impl::FindExec<P...>::type;
    using work_tag = typename Impl::FindTag<P...>::type;
    using index_type = typename Impl::FindIdx<std::int64_t, P...>::type;
    using member_type = Impl::TeamMember;
    int n = 0;
    TeamPolicy() = default;
    template <class L, class... X>
        requires(std::is_integral_v<L>)
    TeamPolicy(L n_, X...) : n(static_cast<int>(n_)) {}
    template <class E, class L, class... X>
        requires(Impl::is_exec<E>::value)
    TeamPolicy(E const&, L n_, X...) : n(static_cast<int>(n_)) {}
    int league_size() const { return n; }
    int team_size() const { return 1; }
};
template <class I> Impl::TeamRange TeamThreadRange(Impl::TeamMember const&, I n) { return {0, static_cast<std::int64_t>(n)}; }
template <class I, class J> Impl::TeamRange TeamThreadRange(Impl::TeamMember const&, I b, J e) { return {static_cast<std::int64_t>(b), static_cast<std::int64_t>(e)}; }
template <class I> Impl::TeamRange TeamVectorRange(Impl::TeamMember const&, I n) { return {0, static_cast<std::int64_t>(n)}; }
template <class I, class J> Impl::TeamRange TeamVectorRange(Impl::TeamMember const&, I b, J e) { return {static_cast<std::int64_t>(b), static_cast<std::int64_t>(e)}; }
template <class I> Impl::TeamRange ThreadVectorRange(Impl::TeamMember const&, I n) { return {0, static_cast<std::int64_t>(n)}; }
template <class I, class J> Impl::TeamRange ThreadVectorRange(Impl::TeamMember const&, I b, J e) { return {static_cast<std::int64_t>(b), static_cast<std::int64_t>(e)}; }
inline Impl::PerOne PerTeam(Impl::TeamMember const&) { return {}; }
inline Impl::PerOne PerThread(Impl::TeamMember const&) { return {}; }
template <class F> void single(Impl::PerOne, F const& f) { f(); }
template <class F, class T> void single(Impl::PerOne, F const& f, T& v) { f(v); }
namespace Impl {
struct TeamIndex // the league index of a team policy, seen as a one-dimensional range
{
    static constexpr unsigned shim_rank = 1;
    std::int64_t n;
    std::int64_t lo(unsigned) const { return 0; }
    std::int64_t hi(unsigned) const { return n; }
};
inline std::vector<std::array<std::int64_t, 6>> team_list(TeamRange const& r)
{
    auto list = list_indices(RangePolicy<>(r.b, r.e));
    permute(list);
    return list;
}
template <class Tag, class F, class... X>
void team_call(F const& f, TeamMember const& m, X&&... x)
{
    if constexpr (std::is_void_v<Tag>) { f(m, std::forward<X>(x)...); } else { f(Tag(), m, std::forward<X>(x)...); }
}
} // namespace Impl
template <class... P, class F>
void parallel_for(std::string const&, TeamPolicy<P...> const& p, F const& f)
{
    using TP = TeamPolicy<P...>;
    int const ls = p.n;
    Impl::run_for(
            RangePolicy<typename TP::execution_space>(0, ls),
            [=](std::int64_t i) { Impl::team_call<typename TP::work_tag>(f, Impl::TeamMember {static_cast<int>(i), ls}); });
}
template <class... P, class F>
void parallel_for(TeamPolicy<P...> const& p, F const& f)
{
    parallel_for(std::string(), p, f);
}
template <class... P, class F, class... Red>
void parallel_reduce(std::string const&, TeamPolicy<P...> const& p, F const& f, Red&&... red)
{
    using TP = TeamPolicy<P...>;
    int const ls = p.n;
    Impl::run_reduce(
            RangePolicy<typename TP::execution_space>(0, ls),
            [=](std::int64_t i, auto&... l) { Impl::team_call<typename TP::work_tag>(f, Impl::TeamMember {static_cast<int>(i), ls}, l...); },
            std::forward<Red>(red)...);
}
template <class... P, class F, class... Red>
void parallel_reduce(TeamPolicy<P...> const& p, F const& f, Red&&... red)
{
    parallel_reduce(std::string(), p, f, std::forward<Red>(red)...);
}
template <class F>
void parallel_for(Impl::TeamRange const& r, F const& f)
{
    for (auto const& i : Impl::team_list(r)) { f(static_cast<int>(i[0])); }
}
template <class F, class Red>
void parallel_reduce(Impl::TeamRange const& r, F const& f, Red&& red)
{
    auto w = Impl::wrap_reducer(red);
    typename decltype(w)::value_type v {};
    w.init(v);
    for (auto const& i : Impl::team_list(r)) { f(static_cast<int>(i[0]), v); }
    w.reference() = v;
}

inline void fence(std::string const& = "") {}

// ------------------------------------------------------------------ atomics
template <class T> inline void atomic_add(T* p, std::type_identity_t<T> v) { std::atomic_ref<T>(*p).fetch_add(v); }
template <class T> inline T atomic_fetch_add(T* p, std::type_identity_t<T> v) { return std::atomic_ref<T>(*p).fetch_add(v); }
template <class T> inline void atomic_max(T* p, std::type_identity_t<T> v)
{
    std::atomic_ref<T> r(*p);
    T o = r.load();
    while (o < v && !r.compare_exchange_weak(o, v)) {}
}
template <class T> inline void atomic_min(T* p, std::type_identity_t<T> v)
{
    std::atomic_ref<T> r(*p);
    T o = r.load();
    while (v < o && !r.compare_exchange_weak(o, v)) {}
}
template <class T, class F>
inline T shim_atomic_rmw(T* p, F const& f)
{
    std::atomic_ref<T> r(*p);
    T o = r.load();
    while (!r.compare_exchange_weak(o, f(o))) {}
    return o;
}
template <class T> inline T atomic_fetch_max(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return o < v ? v : o; }); }
template <class T> inline T atomic_fetch_min(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return v < o ? v : o; }); }
template <class T> inline T atomic_fetch_sub(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return static_cast<T>(o - v); }); }
template <class T> inline T atomic_fetch_mul(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return static_cast<T>(o * v); }); }
template <class T> inline T atomic_fetch_or(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return static_cast<T>(o | v); }); }
template <class T> inline T atomic_fetch_and(T* p, std::type_identity_t<T> v) { return shim_atomic_rmw(p, [=](T o) { return static_cast<T>(o & v); }); }
template <class T> inline void atomic_sub(T* p, std::type_identity_t<T> v) { atomic_fetch_sub(p, v); }
template <class T> inline void atomic_mul(T* p, std::type_identity_t<T> v) { atomic_fetch_mul(p, v); }
template <class T> inline void atomic_or(T* p, std::type_identity_t<T> v) { atomic_fetch_or(p, v); }
template <class T> inline void atomic_and(T* p, std::type_identity_t<T> v) { atomic_fetch_and(p, v); }
template <class T> inline T atomic_exchange(T* p, std::type_identity_t<T> v) { return std::atomic_ref<T>(*p).exchange(v); }
template <class T> inline T atomic_compare_exchange(T* p, std::type_identity_t<T> c, std::type_identity_t<T> v)
{
    std::atomic_ref<T>(*p).compare_exchange_strong(c, v);
    return c;
}
template <class T> inline void atomic_increment(T* p) { shim_atomic_rmw(p, [](T o) { return static_cast<T>(o + T(1)); }); }
template <class T> inline void atomic_decrement(T* p) { shim_atomic_rmw(p, [](T o) { return static_cast<T>(o - T(1)); }); }
template <class T> inline void atomic_dec(T* p) { atomic_decrement(p); }
template <class T> inline void atomic_inc(T* p) { atomic_add(p, T(1)); }
template <class T> inline void atomic_store(T* p, std::type_identity_t<T> v) { std::atomic_ref<T>(*p).store(v); }
template <class T> inline T atomic_load(T const* p) { return std::atomic_ref<T>(*const_cast<T*>(p)).load(); }

// ------------------------------------------------------------------ runtime
inline int& shim_scope_count()
{
    static int n = 0;
    return n;
}
inline void initialize() { ++shim_scope_count(); }
inline void initialize(int&, char**) { ++shim_scope_count(); }
inline void finalize() { --shim_scope_count(); }
inline bool is_initialized() { return shim_scope_count() > 0; }
inline bool is_finalized() { return shim_scope_count() <= 0; }
class ScopeGuard
{
public:
    template <class... A>
    explicit ScopeGuard(A&&...) { initialize(); }
    ~ScopeGuard() { finalize(); }
    ScopeGuard(ScopeGuard const&) = delete;
    ScopeGuard& operator=(ScopeGuard const&) = delete;
};
inline void print_configuration(std::ostream& os, bool = false) { os << "Kokkos shim configuration\n"; }
[[noreturn]] inline void abort(char const* m) { ::vshim::violation("kokkos-abort", m); }
namespace Profiling {
inline int& depth()
{
    static thread_local int d = 0;
    return d;
}
inline void pushRegion(std::string const&) { ++depth(); }
inline void popRegion()
{
    if (--depth() < 0) { depth() = 0; }
}
class ScopedRegion
{
public:
    explicit ScopedRegion(std::string const& n) { pushRegion(n); }
    ~ScopedRegion() { popRegion(); }
};
} // namespace Profiling
class Timer
{
public:
    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - m_start).count(); }
    void reset() { m_start = std::chrono::steady_clock::now(); }

private:
    std::chrono::steady_clock::time_point m_start = std::chrono::steady_clock::now();
};
template <class T> struct is_execution_space : Impl::is_exec<T> {};
template <class T> inline constexpr bool is_execution_space_v = is_execution_space<T>::value;
template <class T> struct is_memory_space : Impl::is_mem<T> {};
template <class T> inline constexpr bool is_memory_space_v = is_memory_space<T>::value;
template <class T> struct is_array_layout : Impl::is_layout<T> {};
template <class T> inline constexpr bool is_array_layout_v = is_array_layout<T>::value;
template <class T> struct is_execution_policy : Impl::is_policy<T> {};
template <class T> inline constexpr bool is_execution_policy_v = is_execution_policy<T>::value;
template <class A, class B>
struct SpaceAccessibility
{
    using MA = typename A::memory_space;
    using MB = typename B::memory_space;
    static constexpr bool accessible = std::is_same_v<MA, MB> || std::is_same_v<MB, SharedHostPinnedSpace>;
    static constexpr bool assignable = std::is_same_v<MA, MB>;
    static constexpr bool deepcopy = true;
};
namespace Experimental {
template <class E, class D, class... P>
void fill(E const&, View<D, P...> const& v, typename View<D, P...>::non_const_value_type const& x) { deep_copy(v, x); }
template <class E, class D, class... P>
void fill(std::string const&, E const&, View<D, P...> const& v, typename View<D, P...>::non_const_value_type const& x) { deep_copy(v, x); }
} // namespace Experimental
} // namespace Kokkos
