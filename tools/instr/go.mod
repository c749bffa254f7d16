module instr

go 1.21
