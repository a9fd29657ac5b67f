#pragma once
int tolower(int); int toupper(int); int isspace(int); int isdigit(int); int isalpha(int);
