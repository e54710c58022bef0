#!/bin/sh
# mklocales.sh DIR: compiles the locales C01 uses into DIR.  A locale that
# cannot be compiled here is left out.
mkdir -p "$1"
one() { localedef -i "$2" -f "$3" --no-archive "$1" >/dev/null 2>&1; }
one "$1/de_DE.UTF-8" de_DE UTF-8 &
one "$1/fr_FR.UTF-8" fr_FR UTF-8 &
one "$1/tr_TR.UTF-8" tr_TR UTF-8 &
one "$1/zh_TW.UTF-8" zh_TW UTF-8 &
one "$1/ps_AF" ps_AF UTF-8 &
one "$1/fa_IR" fa_IR UTF-8 &
one "$1/zh_TW" zh_TW BIG5 &
one "$1/de_DE" de_DE ISO-8859-1 &
one "$1/tr_TR" tr_TR ISO-8859-9 &
wait
touch "$1/.made"
