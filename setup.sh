#!/bin/bash
cd /verif && mkdir -p evidence && bash tools/build.sh all
