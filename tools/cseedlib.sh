# source me after seedlib.sh: cdemo ID "repo sources" "flags" < main.cc
# The demonstration carries its own copy of the stand-ins, and compiles the
# repository's sources with them.
cdemo() {
  local d=/verif/seeded/$1
  rm -rf "/verif/seeded/$1/shim"; cp -a /verif/shim/cpp $d/shim
  cat > $d/main.cc
  cat > $d/demo.sh <<S
#!/bin/bash
HERE="\$(cd "\$(dirname "\$0")" && pwd)"
R="\$PWD"
W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
F="-std=c++20 -include prelude.h -I\$HERE/shim -I\$R -g -O1 -w $3"
for f in $2 "\$HERE/main.cc"; do
  case "\$f" in /*) s="\$f";; *) s="\$R/\$f";; esac
  clang++ \$F -c "\$s" -o "\$W/\$(echo "\$f" | tr /. __).o" & P="\$P \$!"
done
for p in \$P; do wait \$p || { echo "does not compile"; exit 99; }; done
clang++ $3 "\$W"/*.o -o "\$W/demo" -labsl_strings -labsl_throw_delegate -labsl_int128 -labsl_str_format_internal -lpthread || exit 99
ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS=halt_on_error=1 timeout 200 "\$W/demo"
S
}
# jdemo ID "repo sources" "flags" < main.cc: the JSON streams, with absl::string_view as std::string_view.
jdemo() {
  cdemo "$1" "$2" "-DVSHIM_SOFT_DCHECK $3"
  local d=/verif/seeded/$1
  cp -a /verif/shim/cppsv $d/shimsv
  # What the sources include from arolla beyond the stand-ins.
  grep -hoE '#include "arolla/[^"]+"' $(for f in $2; do echo /repo/$f; echo /repo/${f%.cc}.h; done) /repo/koladata/functor/parallel/*.h 2>/dev/null | sort -u | cut -d'"' -f2 | while read h; do
    [ -e $d/shim/$h ] || { mkdir -p $d/shim/$(dirname $h); printf '#pragma once\n#include "arolla/mini.h"\n' > $d/shim/$h; }
  done
  sed -i -e 's|-I\$HERE/shim |-I$HERE/shimsv -I$HERE/shim |' \
    -e 's|-labsl_strings -labsl_throw_delegate -labsl_int128 -labsl_str_format_internal -lpthread|-licuuc -licudata -labsl_throw_delegate -lpthread|' $d/demo.sh
}
# coredemo ID LAYERS(2|3) < main.cc: the core library on the stand-ins of shim/core.
coredemo() {
  local d=/verif/seeded/$1
  rm -rf "/verif/seeded/$1/shim"; cp -a /verif/shim/core $d/shim; cp /verif/cpp/core/arolla_core.cc $d/
  cat > $d/main.cc
  cat > $d/demo.sh <<S
#!/bin/bash
HERE="\$(cd "\$(dirname "\$0")" && pwd)"
R="\$PWD"
W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT
mkdir "\$W/ov"
grep -rhoE --include='*.h' --include='*.cc' '#include "arolla/[^"]+"' "\$R/koladata" | cut -d'"' -f2 | sort -u | while read h; do
  [ -e "\$HERE/shim/\$h" ] || { mkdir -p "\$W/ov/\$(dirname \$h)"; printf '#pragma once\n#include "arolla/core.h"\n' > "\$W/ov/\$h"; }
done
D="koladata/internal koladata/internal/op_utils"; [ $2 = 3 ] && D="\$D koladata"
F="\$(for d in \$D; do ls "\$R"/\$d/*.cc; done | grep -vE '_test.cc|benchmark|test_utils|json_stream')"
[ $2 = 3 ] && F="\$F \$R/koladata/functor_storage.cc \$R/koladata/signature.cc \$R/koladata/signature_storage.cc"
export HERE R W
one() { clang++ -std=c++20 -include prelude.h -I"\$HERE/shim" -I"\$W/ov" -I"\$R" -O0 -w \${EXTRA} -c "\$1" -o "\$W/\$(echo "\$1" | tr /. __).o"; }
export -f one; export EXTRA="$3"
printf '%s\n' \$F "\$HERE/main.cc" "\$HERE/arolla_core.cc" | sort -u | xargs -P 8 -I{} bash -c 'one {}' || { echo "does not compile"; exit 99; }
clang++ \${EXTRA} "\$W"/*.o -o "\$W/demo" -labsl_bad_variant_access -labsl_raw_hash_set -labsl_hashtablez_sampler -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_logging_internal -labsl_throw_delegate -labsl_int128 -labsl_time -labsl_base -labsl_spinlock_wait -labsl_time_zone -labsl_strings -labsl_log_severity -licuuc -licui18n -licudata -lpthread || exit 99
timeout 100 "\$W/demo"
S
}
COREHDR='#include <cstdio>
#include <string>
#include <vector>
#include "arolla/core.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/data_item.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/object_id.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"
using namespace koladata::internal;
static int bad = 0;
#define CHECK_THAT(x) do { if (!(x)) { std::printf("line %d: %s\n", __LINE__, #x); bad = 1; } } while (0)
#define OK(x) do { auto s_ = (x); if (!s_.ok()) { std::printf("line %d: %s: %s\n", __LINE__, #x, std::string(s_.message()).c_str()); bad = 1; } } while (0)
using Opt = std::optional<int64_t>;
[[maybe_unused]] static DataSliceImpl Objs(AllocationId a, std::vector<int> ix) {
  SliceBuilder b(ix.size());
  for (size_t i = 0; i < ix.size(); ++i) b.InsertIfNotSetAndUpdateAllocIds(i, DataItem(a.ObjectByOffset(ix[i])));
  return std::move(b).Build();
}
[[maybe_unused]] static DataSliceImpl Mk(std::vector<DataItem> v) {
  SliceBuilder b(v.size());
  for (size_t i = 0; i < v.size(); ++i) b.InsertIfNotSetAndUpdateAllocIds(i, v[i]);
  return std::move(b).Build();
}
[[maybe_unused]] static std::string S(const DataItem& d) {
  if (!d.has_value()) return "-";
  if (d.holds_value<int32_t>()) return std::to_string(d.value<int32_t>());
  if (d.holds_value<arolla::Text>()) return std::string(d.value<arolla::Text>().view());
  return "?";
}
[[maybe_unused]] static std::string S(const DataSliceImpl& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + S(s[i]); return r; }
[[maybe_unused]] static DataItem I(int x) { return DataItem(int32_t{x}); }
[[maybe_unused]] static bool Eq(const std::string& got, const std::string& want, int line) { if (got != want) { std::printf("line %d: %s, not %s\n", line, got.c_str(), want.c_str()); bad = 1; } return true; }
#define EQ(a, b) Eq((a), (b), __LINE__)
'
cm() { { printf '%s' "$COREHDR"; cat; } | coredemo "$1" 2; }
