module mutate

go 1.18
