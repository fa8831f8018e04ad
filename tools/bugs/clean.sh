cd /verif; for i in $(ls seeded); do grep -q "bug(\"$i\"" tools/bugs/b*.py || rm -rf "/verif/seeded/$i"; done
