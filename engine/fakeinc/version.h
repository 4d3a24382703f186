#define VERSION "verif"
