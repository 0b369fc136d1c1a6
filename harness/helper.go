package main

func runHelper(name string, args []string) {
	if f := helpers[name]; f != nil {
		f(args)
	}
}

var helpers = map[string]func([]string){}
