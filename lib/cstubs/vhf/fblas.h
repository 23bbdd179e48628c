#pragma once
void dgemm_(const char*, const char*, const int*, const int*, const int*, const double*, const double*, const int*, const double*, const int*, const double*, double*, const int*);
void zgemm_(const char*, const char*, const int*, const int*, const int*, const void*, const void*, const int*, const void*, const int*, const void*, void*, const int*);
