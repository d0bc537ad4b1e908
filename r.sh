#!/bin/bash
# dev helper: r.sh PROP [only]
exec /verif/.bin/eng -prop $1 ${2:+-only $2} -evidence /tmp/ev-$1.json -work /tmp/w -findings /verif/KNOWN_FINDINGS ${@:3}
