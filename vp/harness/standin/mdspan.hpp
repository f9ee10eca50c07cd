// Stand-in for the parts of the mdspan reference implementation that LUE's framework uses
#pragma once
#include <array>
#include <cstddef>
#include <type_traits>
#include <utility>


namespace std::experimental {

    struct full_extent_t {};
    inline constexpr full_extent_t full_extent{};
    struct layout_right {};
    struct layout_stride {};

    template<typename Index, std::size_t rank_>
    struct dextents
    {
        using index_type = Index;
        std::array<Index, rank_> values{};
        static constexpr auto rank() -> std::size_t { return rank_; }
        constexpr auto extent(std::size_t idx) const -> Index { return values[idx]; }
    };

    template<typename Element, typename Extents, typename Layout = layout_right>
    class mdspan
    {
        public:

            using element_type = Element;
            using value_type = std::remove_cv_t<Element>;
            using extents_type = Extents;
            using index_type = typename Extents::index_type;
            using size_type = std::make_unsigned_t<index_type>;
            using rank_type = std::size_t;
            using reference = Element&;
            using data_handle_type = Element*;

            constexpr mdspan() = default;

            template<typename OtherIndex>
            constexpr mdspan(Element* data, std::array<OtherIndex, Extents::rank()> const& shape): _data{data}
            {
                for (std::size_t i = 0; i < rank(); ++i) _extents.values[i] = static_cast<index_type>(shape[i]);
                index_type stride{1};
                for (std::size_t i = rank(); i-- > 0;) { _strides[i] = stride; stride *= _extents.values[i]; }
            }

            template<typename... Counts>
                requires(sizeof...(Counts) == Extents::rank() && (std::is_convertible_v<Counts, index_type> && ...))
            constexpr mdspan(Element* data, Counts... counts):
                mdspan(data, std::array<index_type, Extents::rank()>{static_cast<index_type>(counts)...}) {}

            constexpr mdspan(Element* data, std::array<index_type, Extents::rank()> const& shape, std::array<index_type, Extents::rank()> const& strides):
                _data{data}, _strides{strides}
            {
                _extents.values = shape;
            }

            template<typename OtherElement, typename OtherLayout>
            constexpr mdspan(mdspan<OtherElement, Extents, OtherLayout> const& other): _data{other.data_handle()}
            {
                for (std::size_t i = 0; i < rank(); ++i) { _extents.values[i] = other.extent(i); _strides[i] = other.stride(i); }
            }

            static constexpr auto rank() -> std::size_t { return Extents::rank(); }
            constexpr auto extents() const -> Extents const& { return _extents; }
            constexpr auto extent(std::size_t idx) const -> index_type { return _extents.values[idx]; }
            constexpr auto stride(std::size_t idx) const -> index_type { return _strides[idx]; }
            constexpr auto data_handle() const -> Element* { return _data; }
            constexpr auto empty() const -> bool { return size() == 0; }

            constexpr auto size() const -> size_type
            {
                size_type result{1};
                for (std::size_t i = 0; i < rank(); ++i) result *= static_cast<size_type>(_extents.values[i]);
                return result;
            }

            template<typename... Idxs>
            constexpr auto operator[](Idxs... idxs) const -> Element&
            {
                static_assert(sizeof...(Idxs) == Extents::rank());
                return element(std::array<index_type, Extents::rank()>{static_cast<index_type>(idxs)...});
            }

            template<typename... Idxs>
            constexpr auto operator()(Idxs... idxs) const -> Element& { return (*this)[idxs...]; }

        private:

            constexpr auto element(std::array<index_type, Extents::rank()> const& idxs) const -> Element&
            {
                index_type offset{0};
                for (std::size_t i = 0; i < rank(); ++i)
                {
                    if (idxs[i] < 0 || idxs[i] >= _extents.values[i]) out_of_bounds();
                    offset += idxs[i] * _strides[i];
                }
                return _data[offset];
            }

            [[noreturn]] static void out_of_bounds()
            {
                __builtin_printf("index outside of span\n");
                __builtin_abort();
            }

            Element* _data{nullptr};
            Extents _extents{};
            std::array<index_type, Extents::rank()> _strides{};
    };

    template<typename Element, typename Extents, typename Layout, typename... Slices>
    constexpr auto submdspan(mdspan<Element, Extents, Layout> const& span, Slices... slices)
    {
        using Index = typename Extents::index_type;
        constexpr std::size_t new_rank{(std::size_t{!std::is_convertible_v<Slices, Index>} + ... + 0)};
        std::array<Index, new_rank> shape{};
        std::array<Index, new_rank> strides{};
        Index offset{0};
        std::size_t from{0};
        std::size_t to{0};
        auto handle = [&](auto const& slice)
        {
            using Slice = std::remove_cvref_t<decltype(slice)>;
            if constexpr (std::is_convertible_v<Slice, Index>) offset += static_cast<Index>(slice) * span.stride(from);
            else
            {
                Index begin{0};
                Index end{span.extent(from)};
                if constexpr (!std::is_same_v<Slice, full_extent_t>) { begin = std::get<0>(slice); end = std::get<1>(slice); }
                if (begin < 0 || end < begin || end > span.extent(from)) { __builtin_printf("slice outside of span\n"); __builtin_abort(); }
                offset += begin * span.stride(from);
                shape[to] = end - begin;
                strides[to] = span.stride(from);
                ++to;
            }
            ++from;
        };
        (handle(slices), ...);
        return mdspan<Element, dextents<Index, new_rank>, layout_stride>{span.data_handle() + offset, shape, strides};
    }

}  // namespace std::experimental
