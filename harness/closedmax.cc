// The cap of the initial size of closed lists, see search/closedlist.hpp.
unsigned long search_verif_closed_max = 1024;
