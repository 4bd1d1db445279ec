package main

func runChild(args []string) {
	switch args[0] {
	case "c17":
		child17(args[1:])
	case "c24":
		childC24(args[1])
	case "c24race":
		child24race()
	case "c17race":
		child17race(args[1])
	default:
		fatal("unknown child %v", args)
	}
}
