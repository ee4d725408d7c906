#!/bin/bash
# tools/mkdemo.sh ID "src1.cc src2.cc ..." : writes seeded/ID/demo.sh compiling main.cc with these sources of /repo
d=/verif/seeded/$1; mkdir -p $d; rm -rf $d/shim; cp -r /verif/shim $d/shim
cat > $d/demo.sh <<X
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd); w=\$(mktemp -d); trap 'rm -rf "\$w"' EXIT
C=\$PWD/src/vmecpp/cpp
mkdir \$w/e; cp -r /usr/include/eigen3/Eigen \$w/e/
python3 - \$w/e/Eigen/src/Core/StlIterators.h <<'P'
import sys
p=sys.argv[1]; t=open(p).read()
t=t.replace("class pointer_based_stl_iterator\n{", "class pointer_based_stl_iterator\n{\npublic:\n  typedef typename internal::conditional<XprType::InnerStrideAtCompileTime==1, std::contiguous_iterator_tag, std::random_access_iterator_tag>::type iterator_concept;\nprivate:")
open(p,"w").write(t)
P
s=""; for f in $2; do s="\$s \$C/\$f"; done
cd \$w
i=0; o=""
for f in \$here/main.cc \$s; do i=\$((i+1)); g++ -std=c++20 -O1 -w -fopenmp -DVMECPP_USE_FFTX -I\$here/shim -I\$w/e -I\$C -I\$C/third_party/fftx_codelets -I\$C/third_party/fftx_codelets/include -I\$C/third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs -I\$C/third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs \$(pkg-config --cflags hdf5 netcdf) -c \$f -o \$i.o & o="\$o \$i.o"; done; wait
for f in \$o; do [ -f \$f ] || exit 3; done
g++ -fopenmp \$o \$(ls \$C/../../../_build/libfftx*.a \$C/../../../_build/*/libfftx*.a 2>/dev/null) -o a \$(pkg-config --libs hdf5 netcdf) -lhdf5_cpp -lhdf5 \$(pkg-config --libs absl_str_format absl_strings absl_status absl_statusor absl_synchronization) -llapack || exit 3
timeout 200 ./a
X
