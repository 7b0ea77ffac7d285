REASONS = {
 'N01': 'A bound on measured time depends on network delay and clock behaviour at run time; no static argument on the source bounds it.',
 'N02': 'Ordering and loss-freedom of messages are guaranteed by the zmq library and its peers at run time, outside the analysed source.',
 'N03': 'Bit-identity of array contents is a property of numpy\'s compiled buffer and copy routines, which are not in the analysed source.',
 'N04': 'Whether a port is open, closed or filtered is decided by the operating system and firewall at run time.',
 'N05': 'Signal delivery on terminal loss is operating system behaviour; only the detachment steps are visible in source (C20).',
}
