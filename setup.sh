#!/bin/bash
# Builds the harness once from the committed files (each check builds again from /repo's tree).
exec "$(dirname "$(realpath "$0")")/check.sh" list
