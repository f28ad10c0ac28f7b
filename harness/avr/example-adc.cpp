// the project's own converter example
#include "../example/avr/avr-adc-isr.e.cpp"
