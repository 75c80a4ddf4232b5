// stand-in for the optional git dependency, which the checks never enable
