#ifndef VERIF_H5TRACK_HPP
#define VERIF_H5TRACK_HPP
namespace h5track {
int open_ids();            // HDF5 identifiers conduit holds
int open_silo();           // Silo files conduit holds
const char *example();     // the call that handed out one of them
bool close_failed();       // a closing call failed inside the library since reset()
void reset();
}
#endif
