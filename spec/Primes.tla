------------------------------- MODULE Primes -------------------------------
(* The prime moduli of the fields (little-endian digits base 2^15).          *)
EXTENDS BigNat
P_BN254 == <<1, 24576, 22095, 7951, 2324, 14126, 4638, 6644, 23848, 688, 23046, 557, 7045, 13317, 14412, 10041, 12388>>
P_BLS377 == <<1, 0, 0, 20620, 16, 0, 16308, 21819, 345, 28512, 31088, 8808, 26123, 5290, 9867, 12975, 4779>>
P_BW761 == <<1, 0, 0, 10310, 8, 0, 20748, 1454, 23, 4752, 16104, 6929, 29167, 8817, 16445, 27897, 6690, 4726, 12933, 11779, 25520, 7512, 28996, 8971, 11834, 3>>
P_BLS381 == <<10923, 32767, 32767, 20471, 32763, 10879, 32684, 22015, 9246, 25068, 986, 1685, 30323, 8791, 15585, 9666, 25719, 22958, 3374, 15794, 12730, 21321, 24569, 29980, 273, 52>>
P_ED25519 == <<32749, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767>>
=============================================================================
