// Instantiates the header-only storage classes, so that all their members
// are analysed.
#include "src/buildtool/storage/storage.hpp"

template class LocalCAS<false>;
template class LocalStorage<false>;
template class FileStorage<ObjectType::File, StoreMode::FirstWins, true>;
template class FileStorage<ObjectType::Executable, StoreMode::FirstWins, true>;
template class FileStorage<ObjectType::File, StoreMode::FirstWins, false>;
template class FileStorage<ObjectType::File, StoreMode::LastWins, false>;
