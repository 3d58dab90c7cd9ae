#!/bin/bash
exec "$(dirname "$0")/build.sh"
