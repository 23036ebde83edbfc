import sys; sys.path.insert(0,'/tmp')
from mkseed import seed
H='#include <cstdio>\n#include <memory>\n#include <sstream>\n#include <cstring>\n#include "basic.h"\n'
seed('c01-utf16-truncated','C01','a lead surrogate followed by only one more byte at the end of the input',
 'the UTF-16 decoder accepts a surrogate pair whose last byte is missing and reads past the end',
 [('include/decoders/utf16.h','if (end - buf < 4) {','if (end - buf < 3) {')],
 H+'''#include "decoders/utf16.h"
int main() {
  const byte b[] = {0x3D, 0xD8, 0x00, 0xDE};
  int32_t cp;
  if (utf16_to_cp<true>(b, b + 4, cp) != 4 || cp != 0x1F600) return 2;
  for (int n = 0; n < 4; ++n) {
    byte* c = new byte[n];
    memcpy(c, b, n);
    if (utf16_to_cp<true>((const byte*) c, (const byte*) c + n, cp) == 4) { puts("truncated pair accepted"); return 1; }
    delete[] c;
  }
  return 0;
}
''',link=True)
seed('c02-xor-domain','C02','an underlying decoder that yields the code point U+0100','XORDecoder rewrites a value outside the bytes instead of turning it into an error',
 [('include/decoders/xordecoder.h','n.first < 0x100','n.first <= 0x100')],
 H+'''#include "decoders/xordecoder.h"
#include "decoders/utf8decoder.h"
#include "decoders/bytesource.h"
int main() {
  const byte b[] = {0xC4, 0x80, 'a'};
  XORDecoder d(0x21, std::make_unique<UTF8Decoder>(std::make_unique<ByteSource>(b, b + 3)));
  d.reset(b, b + 3);
  auto n = d.next();
  if (n.first != -0x101) { printf("got %d\\n", n.first); return 1; }
  n = d.next();
  return n.first == ('a' ^ 0x21) ? 0 : 1;
}
''',link=True)
seed('c03-stale-queue','C03','resetting a decoder before it has consumed all of its previous input','a decoder that is reset in the middle of its input first yields values of the old input',
 [('include/decoders/utfdecoderbase.h','    In.clear();\n','    if (!In.empty() && In.front().first == END) {\n      In.clear();\n    }\n')],
 H+'''#include "decoders/utf8decoder.h"
#include "decoders/bytesource.h"
int main() {
  const byte a[] = "abcdef", b[] = "uvwxyz";
  UTF8Decoder d(std::make_unique<ByteSource>(a, a + 6));
  d.reset(a, a + 6);
  if (d.next().first != 'a') return 2;
  d.reset(b, b + 6);
  auto n = d.next();
  if (n.first != 'u' || n.second != b) { printf("got %c\\n", n.first); return 1; }
  return 0;
}
''',link=True)




seed('c05-at-most','C05','comparing two equal sets with <=','a byte set is not at most itself',
 [('include/byteset.h','return compare(other) <= 0;','return compare(other) < 0;')],
 H+"""#include <cstddef>\n#include <utility>\n#include <algorithm>\n#include <functional>\n#include "byteset.h"
int main() {
  const ByteSet a('a'), b('a'), c('c');
  return a <= b && b <= a && (a <= c) == (a < c) ? 0 : 1;
}
""")
seed('c06-storage','C06','every label inserted since the last clearing','inserting the last label writes one element past the storage',
 [('include/sparseset.h','Data.reset(new uint32_t[2 * maxSize]);','Data.reset(new uint32_t[2 * maxSize - (maxSize > 1)]);')],
 H+"""#include <limits>\n#include <memory>\n#include "sparseset.h"
int main() {
  for (uint32_t n = 1; n < 20; ++n) {
    SparseSet s(n);
    for (uint32_t i = 0; i < n; ++i) s.insert(i);
    if (s.size() != n) return 1;
  }
  return 0;
}
""")

seed('c11-hex-limit','C11','a braced hexadecimal escape of six digits whose value is 200000 or more','braced hexadecimal escapes far outside the code space are accepted',
 [('include/parseutil.h','return val > 0x10FFFF ? -1 : val;','return (val & 0x1F0000) > 0x100000 ? -1 : val;')],
 H+"""#include <string>\n#include <vector>\n#include "parseutil.h"
int main() {
  for (int v = 0; v < 0x1000000; v += 0xFFFF) {
    char s[16]; sprintf(s, "%X}", v);
    std::vector<int> d(s, s + strlen(s));
    const int* i = d.data();
    const int r = parseHexCodePoint(i, (const int*) d.data() + d.size());
    if (r != (v > 0x10FFFF ? -1 : v)) { printf("%X: %d\\n", v, r); return 1; }
  }
  return 0;
}
""",link=True)
