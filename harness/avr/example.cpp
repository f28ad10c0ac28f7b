// the project's own example of everything together, as it is
#include "../example/avr/avr-adc-dac-isr-atmega.e.cpp"
