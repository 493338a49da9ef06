// Pixel formats: packed, integer and subword storage of pixels in a buffer.
#include "int_types.hpp"
#include <archon/util/unit_frac.hpp>
#include <archon/image/geom.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/channel_packing.hpp>
using namespace ct;
namespace image = archon::image;
namespace uf = archon::util::unit_frac;
using u64 = std::uint64_t;
constexpr u64 lowbits(u64 v, int n) { return n >= 64 ? v : v & ((u64(1) << n) - 1); }

// Independent description of where component c of a pixel lies. Canonical channel index -> position (0 is most significant / first).
constexpr int channel_pos(int c, int n, bool alpha_first, bool reverse) {
    int p = alpha_first ? (c == n - 1 ? 0 : c + 1) : c;
    return reverse ? n - 1 - p : p;
}

// An image size, and a box inside the image
struct Area { image::Size size; image::Box box; };
template<int DX, int DY> Area area(int w = 20000, int h = 20000) {
    Area a;
    a.size = { vc::any<int>(), vc::any<int>() };
    vc_assume(a.size.width >= 0 && a.size.height >= 0 && a.size.width <= w && a.size.height <= h);
    int dx = vc::any<int>(), dy = vc::any<int>();
    vc_assume(dx >= 0 && dx <= DX && dy >= 0 && dy <= DY);
    a.box = { { vc::any<int>(), vc::any<int>() }, { dx, dy } };
    vc_assume(a.box.pos.x >= 0 && a.box.pos.x <= a.size.width - dx && a.box.pos.y >= 0 && a.box.pos.y <= a.size.height - dy);
    return a;
}

template<class P, image::CompRepr R> auto raw(image::comp_type<R> c) { return u64(image::comp_repr_unpack<R>(c)); }

// ---- formats where a pixel is a number of whole words
// field of component c as a function of the words of the pixel
template<class C, class S, class P, class W, int B, int D, core::Endianness E, bool F, bool G>
u64 field(image::PackedPixelFormat<C, S, P, W, B, D, E, F, G>*, const W* p, int c, int& width) {
    constexpr int n = C::num_channels;
    u64 v = 0;
    for (int i = 0; i < D; ++i) v |= lowbits(u64(p[i]), B) << (B * (E == core::Endianness::big ? D - 1 - i : i));
    int k = channel_pos(c, n, F && C::has_alpha_channel, G), shift = 0;
    for (int i = n - 1; i > k; --i) shift += P::fields[i].width + P::fields[i].gap;
    shift += P::fields[k].gap; width = P::fields[k].width;
    return lowbits(v >> shift, width);
}
template<class C, class W, int B, class S, int D, core::Endianness E, bool F, bool G>
u64 field(image::IntegerPixelFormat<C, W, B, S, D, E, F, G>*, const W* p, int c, int& width) {
    constexpr int n = C::num_channels;
    int k = channel_pos(c, n, F && C::has_alpha_channel, G);
    u64 v = 0;
    for (int i = 0; i < D; ++i) v |= lowbits(u64(p[k * D + i]), B) << (B * (E == core::Endianness::big ? D - 1 - i : i));
    width = B * D;
    return v;
}
// every word of a buffer is assumed to hold only what the format can have stored
template<class Fmt> bool word_ok(typename Fmt::word_type w) {
    constexpr int n = Fmt::bits_per_word;
    u64 v = u64(image::unpack_int<n>(w));
    return v == lowbits(v, n) && w == image::pack_int<typename Fmt::word_type, n>(v);
}

template<class Fmt, int DX, int DY> struct Trays {
    static constexpr int nc = Fmt::num_channels;
    using T = typename Fmt::transf_comp_type;
    T mem[(DX + 1) * DY * nc + 2];
    image::Tray<T> tray(image::Size s) { return { { mem + 1, nc, (DX + 1) * nc }, s }; }
};
template<class Fmt, int DX = 2, int DY = 2> void read_words() {
    using T = typename Fmt::transf_comp_type; using W = typename Fmt::word_type;
    constexpr int nc = Fmt::num_channels, wpp = Fmt::words_per_pixel;
    constexpr int depth = image::comp_repr_bit_width<Fmt::transf_repr>();
    Area a = area<DX, DY>();
    std::size_t n = std::size_t(a.size.width) * a.size.height * wpp;
    vc_check(Fmt::get_buffer_size(a.size) == n, "buffer holds every pixel");
    W* buf = vc::array<W>(n);
    Trays<Fmt, DX, DY> t;
    for (T& c : t.mem) c = T(99);
    for (int y = 0; y < DY; ++y) for (int x = 0; x < DX; ++x) if (x < a.box.size.width && y < a.box.size.height) for (int k = 0; k < wpp; ++k)
        vc_assume(word_ok<Fmt>(buf[(std::size_t(a.box.pos.y + y) * a.size.width + (a.box.pos.x + x)) * wpp + k]));
    Fmt::read(buf, a.size, a.box.pos, t.tray(a.box.size));
    for (int y = 0; y < DY; ++y) for (int x = 0; x <= DX; ++x) for (int c = 0; c < nc; ++c) {
        T got = t.mem[1 + (y * (DX + 1) + x) * nc + c];
        if (x < a.box.size.width && y < a.box.size.height) {
            int width = 0;
            u64 v = field(static_cast<Fmt*>(nullptr), buf + (std::size_t(a.box.pos.y + y) * a.size.width + (a.box.pos.x + x)) * wpp, c, width);
            vc_check(u64(image::unpack_int<depth>(got)) == uf::change_bit_width(v, width, depth), "component read");
        }
        else vc_check(got == T(99), "nothing else written");
    }
    vc_check(t.mem[0] == T(99) && t.mem[(DX + 1) * DY * nc + 1] == T(99), "nothing else written");
}
template<class Fmt, bool fill, int DX = 2, int DY = 2> void write_words() {
    using T = typename Fmt::transf_comp_type; using W = typename Fmt::word_type;
    constexpr int nc = Fmt::num_channels, wpp = Fmt::words_per_pixel;
    constexpr int depth = image::comp_repr_bit_width<Fmt::transf_repr>();
    Area a = area<DX, DY>();
    std::size_t n = std::size_t(a.size.width) * a.size.height * wpp;
    W* buf = vc::array<W>(n);
    std::size_t g = vc::any<std::size_t>();
    vc_assume(g < n);
    W old = buf[g];
    Trays<Fmt, DX, DY> t;
    for (T& c : t.mem) c = image::pack_int<T, depth>(unsigned(lowbits(vc::any<unsigned>(), depth)));
    if (fill) Fmt::fill(buf, a.size, a.box, t.mem);
    else Fmt::write(buf, a.size, a.box.pos, t.tray(a.box.size));
    bool in = false;
    for (int y = 0; y < DY; ++y) for (int x = 0; x < DX; ++x) if (x < a.box.size.width && y < a.box.size.height) {
        std::size_t i = (std::size_t(a.box.pos.y + y) * a.size.width + (a.box.pos.x + x)) * wpp;
        for (int c = 0; c < nc; ++c) {
            T want = t.mem[fill ? c : 1 + (y * (DX + 1) + x) * nc + c];
            int width = 0;
            u64 v = field(static_cast<Fmt*>(nullptr), buf + i, c, width);
            vc_check(v == uf::change_bit_width(u64(image::unpack_int<depth>(want)), depth, width), "component written");
        }
        for (int k = 0; k < wpp; ++k) vc_check(word_ok<Fmt>(buf[i + k]), "words hold no more bits than the format specifies");
        in |= g - i < wpp;
    }
    if (!in) vc_check(buf[g] == old, "other pixels untouched");
}
constexpr auto big = core::Endianness::big, little = core::Endianness::little;
using P565 = image::PackedPixelFormat_RGB<std::uint16_t, image::ChannelPacking_565>;
using P8888 = image::PackedPixelFormat<image::ChannelSpec_RGBA, std::int32_t, image::ChannelPacking_8888, char, 8, 4, little, true, false>;
using P332 = image::PackedPixelFormat_RGB<char, image::ChannelPacking_332>;
using P43 = image::PackedPixelFormat<image::ChannelSpec_LumA, std::uint8_t, image::TwoChannelPacking<4, 1, 2, 1>, std::uint8_t, 8, 1, big, true, true>;
using P101 = image::PackedPixelFormat<image::ChannelSpec_RGBA, std::uint32_t, image::FourChannelPacking<10, 1, 9, 0, 8, 1, 2, 1>, std::uint16_t, 16, 2, big, false, true>;
using P555 = image::PackedPixelFormat<image::ChannelSpec_RGB, int, image::ThreeChannelPacking<5, 0, 4, 1, 5, 0>, std::int16_t, 5, 3, big, false, false>;
using I8 = image::IntegerPixelFormat_RGBA<char, 8>;
using I16 = image::IntegerPixelFormat<image::ChannelSpec_RGBA, char, 8, std::int16_t, 2, big, true, false>;
using I16l = image::IntegerPixelFormat<image::ChannelSpec_LumA, std::uint8_t, 8, std::uint16_t, 2, little, true, true>;
using I5 = image::IntegerPixelFormat<image::ChannelSpec_RGB, std::uint8_t, 5, std::uint8_t, 1, big, false, true>;
using I12 = image::IntegerPixelFormat<image::ChannelSpec_Lum, std::int16_t, 4, int, 3, little, false, false>;
//: proof read_ bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof write_ bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof fill_ bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof read_p332 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_p332 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof write_p332 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_p43 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof write_p555 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_p555 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_p8888 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_i8 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof write_i8 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_i16 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof write_i16l bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_i16l bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof read_i12 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof write_i12 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof fill_i12 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000
//: proof read_i5 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof fill_p101 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof write_p101 bounded=2 bound=boxes_of_at_most_2x2_pixels_at_any_position_of_any_image_up_to_20000x20000 tier=thorough
//: proof read_s1 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof write_s1 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof fill_s1 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3 tier=thorough
//: proof read_s2 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof write_s2 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof fill_s2 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof read_s3 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof write_s3 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof fill_s3 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof read_s4 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof write_s4 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3 tier=thorough
//: proof fill_s4 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof read_s5 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof write_s5 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
//: proof fill_s5 bounded=2 bound=boxes_of_at_most_5x1_pixels_or_2x2_pixels_at_any_position_of_any_image_up_to_9x3
#define WORDS(NAME, FMT) \
    VC_PROOF(read_##NAME) { read_words<FMT>(); } \
    VC_PROOF(write_##NAME) { write_words<FMT, false>(); } \
    VC_PROOF(fill_##NAME) { write_words<FMT, true>(); }
WORDS(p565, P565)
WORDS(p8888, P8888) WORDS(p332, P332) WORDS(p43, P43) WORDS(p101, P101) WORDS(p555, P555)
WORDS(i8, I8) WORDS(i16, I16) WORDS(i16l, I16l) WORDS(i5, I5) WORDS(i12, I12)

// ---- several pixels per word
template<class Fmt> struct Where { std::size_t word; int shift; };
template<class Fmt> Where<Fmt> locate(image::Size s, int x, int y) {
    constexpr int d = Fmt::pixels_per_word;
    std::size_t w; int p;
    if (Fmt::word_aligned_rows) {
        int wpr = s.width / d + (s.width % d != 0);
        w = std::size_t(y) * wpr + x / d; p = x % d;
    }
    else { std::size_t i = std::size_t(y) * s.width + x; w = i / d; p = int(i % d); }
    return { w, (Fmt::bit_order == core::Endianness::big ? d - 1 - p : p) * Fmt::bits_per_pixel };
}
template<class Fmt> u64 sub_field(const typename Fmt::word_type* buf, Where<Fmt> w, int c) {
    constexpr int n = Fmt::num_channels;
    int k = channel_pos(c, n, Fmt::alpha_channel_first && Fmt::has_alpha_channel, Fmt::reverse_channel_order);
    return lowbits(u64(buf[w.word]) >> (w.shift + (n - 1 - k) * Fmt::bits_per_channel), Fmt::bits_per_channel);
}
template<class Fmt> std::size_t sub_words(image::Size s) {
    constexpr int d = Fmt::pixels_per_word;
    if (Fmt::word_aligned_rows) return (std::size_t(s.width) / d + (s.width % d != 0)) * s.height;
    std::size_t n = std::size_t(s.width) * s.height;
    return n / d + (n % d != 0);
}
template<class Fmt, int DX, int DY> void read_sub() {
    using T = typename Fmt::transf_comp_type; using W = typename Fmt::word_type;
    constexpr int nc = Fmt::num_channels;
    constexpr int depth = image::comp_repr_bit_width<Fmt::transf_repr>();
    Area a = area<DX, DY>(9, 3);
    std::size_t n = sub_words<Fmt>(a.size);
    vc_check(Fmt::get_buffer_size(a.size) == n, "buffer holds every pixel");
    W* buf = vc::array<W>(n);
    Trays<Fmt, DX, DY> t;
    for (T& c : t.mem) c = T(99);
    for (int y = 0; y < DY; ++y) for (int x = 0; x < DX; ++x) if (x < a.box.size.width && y < a.box.size.height)
        vc_assume(word_ok<Fmt>(buf[locate<Fmt>(a.size, a.box.pos.x + x, a.box.pos.y + y).word]));
    Fmt::read(buf, a.size, a.box.pos, t.tray(a.box.size));
    for (int y = 0; y < DY; ++y) for (int x = 0; x <= DX; ++x) for (int c = 0; c < nc; ++c) {
        T got = t.mem[1 + (y * (DX + 1) + x) * nc + c];
        if (x < a.box.size.width && y < a.box.size.height) {
            u64 v = sub_field<Fmt>(buf, locate<Fmt>(a.size, a.box.pos.x + x, a.box.pos.y + y), c);
            vc_check(u64(image::unpack_int<depth>(got)) == uf::change_bit_width(v, Fmt::bits_per_channel, depth), "component read");
        }
        else vc_check(got == T(99), "nothing else written");
    }
}
template<class Fmt, bool fill, int DX, int DY> void write_sub() {
    using T = typename Fmt::transf_comp_type; using W = typename Fmt::word_type;
    constexpr int nc = Fmt::num_channels;
    constexpr int depth = image::comp_repr_bit_width<Fmt::transf_repr>();
    Area a = area<DX, DY>(9, 3);
    std::size_t n = sub_words<Fmt>(a.size);
    W* buf = vc::array<W>(n);
    // a pixel outside the box
    int gx = vc::any<int>(), gy = vc::any<int>();
    vc_assume(gx >= 0 && gy >= 0 && gx < a.size.width && gy < a.size.height);
    vc_assume(gx < a.box.pos.x || gy < a.box.pos.y || gx >= a.box.pos.x + a.box.size.width || gy >= a.box.pos.y + a.box.size.height);
    Where<Fmt> g = locate<Fmt>(a.size, gx, gy);
    vc_assume(word_ok<Fmt>(buf[g.word]));
    for (int y = 0; y < DY; ++y) for (int x = 0; x < DX; ++x) if (x < a.box.size.width && y < a.box.size.height)
        vc_assume(word_ok<Fmt>(buf[locate<Fmt>(a.size, a.box.pos.x + x, a.box.pos.y + y).word]));
    u64 old[nc];
    for (int c = 0; c < nc; ++c) old[c] = sub_field<Fmt>(buf, g, c);
    Trays<Fmt, DX, DY> t;
    for (T& c : t.mem) c = image::pack_int<T, depth>(unsigned(lowbits(vc::any<unsigned>(), depth)));
    if (fill) Fmt::fill(buf, a.size, a.box, t.mem);
    else Fmt::write(buf, a.size, a.box.pos, t.tray(a.box.size));
    for (int y = 0; y < DY; ++y) for (int x = 0; x < DX; ++x) if (x < a.box.size.width && y < a.box.size.height) {
        Where<Fmt> w = locate<Fmt>(a.size, a.box.pos.x + x, a.box.pos.y + y);
        for (int c = 0; c < nc; ++c)
            vc_check(sub_field<Fmt>(buf, w, c) == uf::change_bit_width(u64(image::unpack_int<depth>(t.mem[fill ? c : 1 + (y * (DX + 1) + x) * nc + c])), depth, Fmt::bits_per_channel), "component written");
        vc_check(word_ok<Fmt>(buf[w.word]), "words hold no more bits than the format specifies");
    }
    for (int c = 0; c < nc; ++c) vc_check(sub_field<Fmt>(buf, g, c) == old[c], "other pixels untouched");
}
using S1 = image::SubwordPixelFormat_Lum<std::uint8_t, 1, 4, big>;                                                            // 4 of 8 bits used
using S2 = image::SubwordPixelFormat<image::ChannelSpec_Lum, char, 4, 2, little, false, false, false>;                        // rows not word aligned
using S3 = image::SubwordPixelFormat<image::ChannelSpec_RGBA, std::int16_t, 2, 2, big, true, false, true>;
using S4 = image::SubwordPixelFormat<image::ChannelSpec_LumA, std::uint32_t, 5, 3, little, false, true, false>;
using S5 = image::SubwordPixelFormat<image::ChannelSpec_LumA, std::uint32_t, 10, 1, big, false, true, true>;
#define SUBWORD(NAME, FMT, DX, DY) \
    VC_PROOF(read_##NAME) { read_sub<FMT, DX, DY>(); } \
    VC_PROOF(write_##NAME) { write_sub<FMT, false, DX, DY>(); } \
    VC_PROOF(fill_##NAME) { write_sub<FMT, true, DX, DY>(); }
SUBWORD(s1, S1, 5, 1) SUBWORD(s2, S2, 5, 1) SUBWORD(s3, S3, 3, 1) SUBWORD(s4, S4, 4, 1) SUBWORD(s5, S5, 2, 2)
