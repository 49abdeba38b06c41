// Put in front of each command-line tool: gives its main a symbol of its own (it stays main for the compiler, so falling off its end returns 0).
int main(int, char**) __asm__("tool_" TOOL);
