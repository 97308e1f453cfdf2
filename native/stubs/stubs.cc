// Stand-ins for the parts of fairseq2n whose third-party dependencies are not
// installed (libzip, libsndfile, sentencepiece, libjpeg/libpng).
#include <stdexcept>
#include "fairseq2n/data/zip_file_data_source.h"

namespace fairseq2n::detail {
zip_file_data_source::zip_file_data_source(std::filesystem::path &&) { throw std::runtime_error("stub"); }
std::optional<data> zip_file_data_source::next() { throw std::runtime_error("stub"); }
void zip_file_data_source::reset(bool) {}
void zip_file_data_source::record_position(tape &, bool) const {}
void zip_file_data_source::reload_position(tape &, bool) {}
data_source_finitude_type zip_file_data_source::finitude_type() const noexcept { return data_source_finitude_type::finite; }
}
