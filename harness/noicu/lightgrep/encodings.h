#include "lightgrep/encodings.h.no_icu"
