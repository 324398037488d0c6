INIT Init
NEXT Next
VIEW View
ALIAS Alias
