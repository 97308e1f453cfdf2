// Stand-in for libzip's header (libzip is not installed in the sandbox).
#pragma once
struct zip_t;
