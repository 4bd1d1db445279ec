module aaa.test/entropy

go 1.23.0
