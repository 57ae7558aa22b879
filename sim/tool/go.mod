module veriftool

go 1.27
