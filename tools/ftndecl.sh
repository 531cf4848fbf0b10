#!/bin/bash
# declarations for every Fortran subroutine of /repo/m4 (names only; all arguments are references)
echo '#pragma once'; echo 'extern "C" {'
cat "${CHECK_REPO:-/repo}"/m4/*.m4 | grep -ioE 'subroutine +[a-z0-9_]+' | awk '{print tolower($2)}' | sort -u | sed 's/.*/void &_();/'
echo '}'
