#pragma once
extern "C" {
unsigned char _BitScanReverse(unsigned long *, unsigned long);
unsigned char _BitScanForward(unsigned long *, unsigned long);
unsigned char _BitScanReverse64(unsigned long *, unsigned __int64);
unsigned char _BitScanForward64(unsigned long *, unsigned __int64);
}
