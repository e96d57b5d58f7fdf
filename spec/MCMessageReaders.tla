-------------------------- MODULE MCMessageReaders --------------------------
EXTENDS MessageReaders
CONSTANT ReaderN
ReadersC == 1..ReaderN
OpsC == [op : {"compute"}, p : {0, 107, 191, 200}] \cup [op : {"priority"}, p : {13, 192}] \cup [op : {"version"}, v : {1, 1000}]
        \cup [op : {"rawversion"}, v : {0}] \cup [op : {"new"}, kind : {"3164"}]
=============================================================================
