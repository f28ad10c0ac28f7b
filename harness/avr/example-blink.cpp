// the project's own heartbeat example
#include "../example/avr/avr-blink-led-isr.e.cpp"
