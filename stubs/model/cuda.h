// launches, memory and events are modelled in harness/refdrive.cc
