/* force-included for native builds; the contract file ends with VP_MAIN(VP_ENTRY) */
