#include "fairseq2n/bindings/module.h"
namespace fairseq2n {
namespace {
template <int N> struct stub {};
template <int N> void add(pybind11::module_ &m, const char *name) { pybind11::class_<stub<N>>(m, name); }
}
void def_audio(pybind11::module_ &d) {
    auto m = d.def_submodule("audio");
    add<0>(m, "AudioDecoder");
    add<1>(m, "WaveformToFbankConverter");
}
void def_image(pybind11::module_ &d) {
    auto m = d.def_submodule("image");
    add<2>(m, "ImageDecoder");
}
void def_sentencepiece(pybind11::module_ &t) {
    auto m = t.def_submodule("sentencepiece");
    add<3>(m, "SentencePieceModel");
    add<4>(m, "SentencePieceEncoder");
    add<5>(m, "SentencePieceDecoder");
}
}
