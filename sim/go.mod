// Placeholder: the simulator is built with -modfile (see tools/instrument).
module github.com/hyperonym/ratus/verifsim

go 1.22.2
