module instr

go 1.23.5
